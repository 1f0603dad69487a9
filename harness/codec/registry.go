// Code generated from the table of supported pairs; one line per PostgreSQL type and Go type.
package main

import (
	"database/sql"
	"net"
	"time"

	"github.com/frk/gosql/pgsql"
)

var _ net.IP

func registerAll() {
	reg[bool]("bit", "bool", pgsql.BitFromBool, nil)
	reg[uint]("bit", "uint", nil, nil)
	reg[uint8]("bit", "uint8", nil, nil)
	reg[string]("bit", "string", nil, nil)
	reg[[]byte]("bit", "[]byte", nil, nil)
	reg[[]bool]("bit[]", "[]bool", pgsql.BitArrayFromBoolSlice, pgsql.BitArrayToBoolSlice)
	reg[[]uint]("bit[]", "[]uint", pgsql.BitArrayFromUintSlice, pgsql.BitArrayToUintSlice)
	reg[[]uint8]("bit[]", "[]uint8", pgsql.BitArrayFromUint8Slice, pgsql.BitArrayToUint8Slice)
	reg[string]("bit[]", "string", nil, nil)
	reg[[]byte]("bit[]", "[]byte", nil, nil)
	reg[byte]("bpchar", "byte", pgsql.BPCharFromByte, pgsql.BPCharToByte)
	reg[rune]("bpchar", "rune", pgsql.BPCharFromRune, pgsql.BPCharToRune)
	reg[string]("bpchar", "string", nil, nil)
	reg[[]byte]("bpchar", "[]byte", nil, nil)
	reg[[]rune]("bpchar[]", "[]rune", pgsql.BPCharArrayFromRuneSlice, pgsql.BPCharArrayToRuneSlice)
	reg[[]string]("bpchar[]", "[]string", pgsql.BPCharArrayFromStringSlice, pgsql.BPCharArrayToStringSlice)
	reg[string]("bpchar[]", "string", pgsql.BPCharArrayFromString, pgsql.BPCharArrayToString)
	reg[[]byte]("bpchar[]", "[]byte", pgsql.BPCharArrayFromByteSlice, pgsql.BPCharArrayToByteSlice)
	reg[byte]("char", "byte", pgsql.CharFromByte, pgsql.CharToByte)
	reg[rune]("char", "rune", pgsql.CharFromRune, pgsql.CharToRune)
	reg[string]("char", "string", nil, nil)
	reg[[]byte]("char", "[]byte", nil, nil)
	reg[[]rune]("char[]", "[]rune", pgsql.CharArrayFromRuneSlice, pgsql.CharArrayToRuneSlice)
	reg[[]string]("char[]", "[]string", pgsql.CharArrayFromStringSlice, pgsql.CharArrayToStringSlice)
	reg[string]("char[]", "string", pgsql.CharArrayFromString, pgsql.CharArrayToString)
	reg[[]byte]("char[]", "[]byte", pgsql.CharArrayFromByteSlice, pgsql.CharArrayToByteSlice)
	reg[bool]("bool", "bool", nil, nil)
	reg[string]("bool", "string", nil, nil)
	reg[[]byte]("bool", "[]byte", nil, nil)
	reg[[]bool]("bool[]", "[]bool", pgsql.BoolArrayFromBoolSlice, pgsql.BoolArrayToBoolSlice)
	reg[string]("bool[]", "string", nil, nil)
	reg[[]byte]("bool[]", "[]byte", nil, nil)
	reg[[2][2]float64]("box", "[2][2]float64", pgsql.BoxFromFloat64Array2Array2, pgsql.BoxToFloat64Array2Array2)
	reg[string]("box", "string", nil, nil)
	reg[[]byte]("box", "[]byte", nil, nil)
	reg[[][2][2]float64]("box[]", "[][2][2]float64", pgsql.BoxArrayFromFloat64Array2Array2Slice, pgsql.BoxArrayToFloat64Array2Array2Slice)
	reg[string]("box[]", "string", nil, nil)
	reg[[]byte]("box[]", "[]byte", nil, nil)
	reg[string]("bytea", "string", nil, nil)
	reg[[]byte]("bytea", "[]byte", nil, nil)
	reg[[]string]("bytea[]", "[]string", pgsql.ByteaArrayFromStringSlice, pgsql.ByteaArrayToStringSlice)
	reg[[][]byte]("bytea[]", "[][]byte", pgsql.ByteaArrayFromByteSliceSlice, pgsql.ByteaArrayToByteSliceSlice)
	reg[string]("bytea[]", "string", nil, nil)
	reg[[]byte]("bytea[]", "[]byte", nil, nil)
	reg[net.IPNet]("cidr", "net.IPNet", pgsql.CIDRFromIPNet, pgsql.CIDRToIPNet)
	reg[string]("cidr", "string", nil, nil)
	reg[[]byte]("cidr", "[]byte", nil, nil)
	reg[[]net.IPNet]("cidr[]", "[]net.IPNet", pgsql.CIDRArrayFromIPNetSlice, pgsql.CIDRArrayToIPNetSlice)
	reg[string]("cidr[]", "string", nil, nil)
	reg[[]byte]("cidr[]", "[]byte", nil, nil)
	reg[string]("circle", "string", nil, nil)
	reg[[]byte]("circle", "[]byte", nil, nil)
	reg[string]("circle[]", "string", nil, nil)
	reg[[]byte]("circle[]", "[]byte", nil, nil)
	reg[time.Time]("date", "time.Time", nil, pgsql.DateToTime)
	reg[string]("date", "string", nil, pgsql.DateToString)
	reg[[]byte]("date", "[]byte", nil, pgsql.DateToByteSlice)
	reg[[]time.Time]("date[]", "[]time.Time", pgsql.DateArrayFromTimeSlice, pgsql.DateArrayToTimeSlice)
	reg[string]("date[]", "string", nil, nil)
	reg[[]byte]("date[]", "[]byte", nil, nil)
	reg[[2]time.Time]("daterange", "[2]time.Time", pgsql.DateRangeFromTimeArray2, pgsql.DateRangeToTimeArray2)
	reg[string]("daterange", "string", nil, nil)
	reg[[]byte]("daterange", "[]byte", nil, nil)
	reg[[][2]time.Time]("daterange[]", "[][2]time.Time", pgsql.DateRangeArrayFromTimeArray2Slice, pgsql.DateRangeArrayToTimeArray2Slice)
	reg[string]("daterange[]", "string", nil, nil)
	reg[[]byte]("daterange[]", "[]byte", nil, nil)
	reg[float32]("float4", "float32", nil, nil)
	reg[float64]("float4", "float64", nil, nil)
	reg[string]("float4", "string", nil, nil)
	reg[[]byte]("float4", "[]byte", nil, nil)
	reg[[]float32]("float4[]", "[]float32", pgsql.Float4ArrayFromFloat32Slice, pgsql.Float4ArrayToFloat32Slice)
	reg[[]float64]("float4[]", "[]float64", pgsql.Float4ArrayFromFloat64Slice, pgsql.Float4ArrayToFloat64Slice)
	reg[string]("float4[]", "string", nil, nil)
	reg[[]byte]("float4[]", "[]byte", nil, nil)
	reg[float32]("float8", "float32", nil, nil)
	reg[float64]("float8", "float64", nil, nil)
	reg[string]("float8", "string", nil, nil)
	reg[[]byte]("float8", "[]byte", nil, nil)
	reg[[]float32]("float8[]", "[]float32", pgsql.Float8ArrayFromFloat32Slice, pgsql.Float8ArrayToFloat32Slice)
	reg[[]float64]("float8[]", "[]float64", pgsql.Float8ArrayFromFloat64Slice, pgsql.Float8ArrayToFloat64Slice)
	reg[string]("float8[]", "string", nil, nil)
	reg[[]byte]("float8[]", "[]byte", nil, nil)
	reg[map[string]string]("hstore", "map[string]string", pgsql.HStoreFromStringMap, pgsql.HStoreToStringMap)
	reg[map[string]*string]("hstore", "map[string]*string", pgsql.HStoreFromStringPtrMap, pgsql.HStoreToStringPtrMap)
	reg[map[string]sql.NullString]("hstore", "map[string]sql.NullString", pgsql.HStoreFromNullStringMap, pgsql.HStoreToNullStringMap)
	reg[string]("hstore", "string", nil, nil)
	reg[[]byte]("hstore", "[]byte", nil, nil)
	reg[[]map[string]string]("hstore[]", "[]map[string]string", pgsql.HStoreArrayFromStringMapSlice, pgsql.HStoreArrayToStringMapSlice)
	reg[[]map[string]*string]("hstore[]", "[]map[string]*string", pgsql.HStoreArrayFromStringPtrMapSlice, pgsql.HStoreArrayToStringPtrMapSlice)
	reg[[]map[string]sql.NullString]("hstore[]", "[]map[string]sql.NullString", pgsql.HStoreArrayFromNullStringMapSlice, pgsql.HStoreArrayToNullStringMapSlice)
	reg[string]("hstore[]", "string", nil, nil)
	reg[[]byte]("hstore[]", "[]byte", nil, nil)
	reg[net.IP]("inet", "net.IP", pgsql.InetFromIP, pgsql.InetToIP)
	reg[net.IPNet]("inet", "net.IPNet", pgsql.InetFromIPNet, pgsql.InetToIPNet)
	reg[string]("inet", "string", nil, nil)
	reg[[]byte]("inet", "[]byte", nil, nil)
	reg[[]net.IP]("inet[]", "[]net.IP", pgsql.InetArrayFromIPSlice, pgsql.InetArrayToIPSlice)
	reg[[]net.IPNet]("inet[]", "[]net.IPNet", pgsql.InetArrayFromIPNetSlice, pgsql.InetArrayToIPNetSlice)
	reg[string]("inet[]", "string", nil, nil)
	reg[[]byte]("inet[]", "[]byte", nil, nil)
	reg[int]("int2", "int", nil, nil)
	reg[int8]("int2", "int8", nil, nil)
	reg[int16]("int2", "int16", nil, nil)
	reg[int32]("int2", "int32", nil, nil)
	reg[int64]("int2", "int64", nil, nil)
	reg[uint]("int2", "uint", nil, nil)
	reg[uint8]("int2", "uint8", nil, nil)
	reg[uint16]("int2", "uint16", nil, nil)
	reg[uint32]("int2", "uint32", nil, nil)
	reg[uint64]("int2", "uint64", nil, nil)
	reg[float32]("int2", "float32", nil, nil)
	reg[float64]("int2", "float64", nil, nil)
	reg[string]("int2", "string", nil, nil)
	reg[[]byte]("int2", "[]byte", nil, nil)
	reg[[]int]("int2[]", "[]int", pgsql.Int2ArrayFromIntSlice, pgsql.Int2ArrayToIntSlice)
	reg[[]int8]("int2[]", "[]int8", pgsql.Int2ArrayFromInt8Slice, pgsql.Int2ArrayToInt8Slice)
	reg[[]int16]("int2[]", "[]int16", pgsql.Int2ArrayFromInt16Slice, pgsql.Int2ArrayToInt16Slice)
	reg[[]int32]("int2[]", "[]int32", pgsql.Int2ArrayFromInt32Slice, pgsql.Int2ArrayToInt32Slice)
	reg[[]int64]("int2[]", "[]int64", pgsql.Int2ArrayFromInt64Slice, pgsql.Int2ArrayToInt64Slice)
	reg[[]uint]("int2[]", "[]uint", pgsql.Int2ArrayFromUintSlice, pgsql.Int2ArrayToUintSlice)
	reg[[]uint8]("int2[]", "[]uint8", pgsql.Int2ArrayFromUint8Slice, pgsql.Int2ArrayToUint8Slice)
	reg[[]uint16]("int2[]", "[]uint16", pgsql.Int2ArrayFromUint16Slice, pgsql.Int2ArrayToUint16Slice)
	reg[[]uint32]("int2[]", "[]uint32", pgsql.Int2ArrayFromUint32Slice, pgsql.Int2ArrayToUint32Slice)
	reg[[]uint64]("int2[]", "[]uint64", pgsql.Int2ArrayFromUint64Slice, pgsql.Int2ArrayToUint64Slice)
	reg[[]float32]("int2[]", "[]float32", pgsql.Int2ArrayFromFloat32Slice, pgsql.Int2ArrayToFloat32Slice)
	reg[[]float64]("int2[]", "[]float64", pgsql.Int2ArrayFromFloat64Slice, pgsql.Int2ArrayToFloat64Slice)
	reg[string]("int2[]", "string", nil, nil)
	reg[[]byte]("int2[]", "[]byte", nil, nil)
	reg[[]int]("int2vector", "[]int", pgsql.Int2VectorFromIntSlice, pgsql.Int2VectorToIntSlice)
	reg[[]int8]("int2vector", "[]int8", pgsql.Int2VectorFromInt8Slice, pgsql.Int2VectorToInt8Slice)
	reg[[]int16]("int2vector", "[]int16", pgsql.Int2VectorFromInt16Slice, pgsql.Int2VectorToInt16Slice)
	reg[[]int32]("int2vector", "[]int32", pgsql.Int2VectorFromInt32Slice, pgsql.Int2VectorToInt32Slice)
	reg[[]int64]("int2vector", "[]int64", pgsql.Int2VectorFromInt64Slice, pgsql.Int2VectorToInt64Slice)
	reg[[]uint]("int2vector", "[]uint", pgsql.Int2VectorFromUintSlice, pgsql.Int2VectorToUintSlice)
	reg[[]uint8]("int2vector", "[]uint8", pgsql.Int2VectorFromUint8Slice, pgsql.Int2VectorToUint8Slice)
	reg[[]uint16]("int2vector", "[]uint16", pgsql.Int2VectorFromUint16Slice, pgsql.Int2VectorToUint16Slice)
	reg[[]uint32]("int2vector", "[]uint32", pgsql.Int2VectorFromUint32Slice, pgsql.Int2VectorToUint32Slice)
	reg[[]uint64]("int2vector", "[]uint64", pgsql.Int2VectorFromUint64Slice, pgsql.Int2VectorToUint64Slice)
	reg[[]float32]("int2vector", "[]float32", pgsql.Int2VectorFromFloat32Slice, pgsql.Int2VectorToFloat32Slice)
	reg[[]float64]("int2vector", "[]float64", pgsql.Int2VectorFromFloat64Slice, pgsql.Int2VectorToFloat64Slice)
	reg[string]("int2vector", "string", nil, nil)
	reg[[]byte]("int2vector", "[]byte", nil, nil)
	reg[[][]int]("int2vector[]", "[][]int", pgsql.Int2VectorArrayFromIntSliceSlice, pgsql.Int2VectorArrayToIntSliceSlice)
	reg[[][]int8]("int2vector[]", "[][]int8", pgsql.Int2VectorArrayFromInt8SliceSlice, pgsql.Int2VectorArrayToInt8SliceSlice)
	reg[[][]int16]("int2vector[]", "[][]int16", pgsql.Int2VectorArrayFromInt16SliceSlice, pgsql.Int2VectorArrayToInt16SliceSlice)
	reg[[][]int32]("int2vector[]", "[][]int32", pgsql.Int2VectorArrayFromInt32SliceSlice, pgsql.Int2VectorArrayToInt32SliceSlice)
	reg[[][]int64]("int2vector[]", "[][]int64", pgsql.Int2VectorArrayFromInt64SliceSlice, pgsql.Int2VectorArrayToInt64SliceSlice)
	reg[[][]uint]("int2vector[]", "[][]uint", pgsql.Int2VectorArrayFromUintSliceSlice, pgsql.Int2VectorArrayToUintSliceSlice)
	reg[[][]uint8]("int2vector[]", "[][]uint8", pgsql.Int2VectorArrayFromUint8SliceSlice, pgsql.Int2VectorArrayToUint8SliceSlice)
	reg[[][]uint16]("int2vector[]", "[][]uint16", pgsql.Int2VectorArrayFromUint16SliceSlice, pgsql.Int2VectorArrayToUint16SliceSlice)
	reg[[][]uint32]("int2vector[]", "[][]uint32", pgsql.Int2VectorArrayFromUint32SliceSlice, pgsql.Int2VectorArrayToUint32SliceSlice)
	reg[[][]uint64]("int2vector[]", "[][]uint64", pgsql.Int2VectorArrayFromUint64SliceSlice, pgsql.Int2VectorArrayToUint64SliceSlice)
	reg[[][]float32]("int2vector[]", "[][]float32", pgsql.Int2VectorArrayFromFloat32SliceSlice, pgsql.Int2VectorArrayToFloat32SliceSlice)
	reg[[][]float64]("int2vector[]", "[][]float64", pgsql.Int2VectorArrayFromFloat64SliceSlice, pgsql.Int2VectorArrayToFloat64SliceSlice)
	reg[string]("int2vector[]", "string", nil, nil)
	reg[[]byte]("int2vector[]", "[]byte", nil, nil)
	reg[int]("int4", "int", nil, nil)
	reg[int8]("int4", "int8", nil, nil)
	reg[int16]("int4", "int16", nil, nil)
	reg[int32]("int4", "int32", nil, nil)
	reg[int64]("int4", "int64", nil, nil)
	reg[uint]("int4", "uint", nil, nil)
	reg[uint8]("int4", "uint8", nil, nil)
	reg[uint16]("int4", "uint16", nil, nil)
	reg[uint32]("int4", "uint32", nil, nil)
	reg[uint64]("int4", "uint64", nil, nil)
	reg[float32]("int4", "float32", nil, nil)
	reg[float64]("int4", "float64", nil, nil)
	reg[string]("int4", "string", nil, nil)
	reg[[]byte]("int4", "[]byte", nil, nil)
	reg[[]int]("int4[]", "[]int", pgsql.Int4ArrayFromIntSlice, pgsql.Int4ArrayToIntSlice)
	reg[[]int8]("int4[]", "[]int8", pgsql.Int4ArrayFromInt8Slice, pgsql.Int4ArrayToInt8Slice)
	reg[[]int16]("int4[]", "[]int16", pgsql.Int4ArrayFromInt16Slice, pgsql.Int4ArrayToInt16Slice)
	reg[[]int32]("int4[]", "[]int32", pgsql.Int4ArrayFromInt32Slice, pgsql.Int4ArrayToInt32Slice)
	reg[[]int64]("int4[]", "[]int64", pgsql.Int4ArrayFromInt64Slice, pgsql.Int4ArrayToInt64Slice)
	reg[[]uint]("int4[]", "[]uint", pgsql.Int4ArrayFromUintSlice, pgsql.Int4ArrayToUintSlice)
	reg[[]uint8]("int4[]", "[]uint8", pgsql.Int4ArrayFromUint8Slice, pgsql.Int4ArrayToUint8Slice)
	reg[[]uint16]("int4[]", "[]uint16", pgsql.Int4ArrayFromUint16Slice, pgsql.Int4ArrayToUint16Slice)
	reg[[]uint32]("int4[]", "[]uint32", pgsql.Int4ArrayFromUint32Slice, pgsql.Int4ArrayToUint32Slice)
	reg[[]uint64]("int4[]", "[]uint64", pgsql.Int4ArrayFromUint64Slice, pgsql.Int4ArrayToUint64Slice)
	reg[[]float32]("int4[]", "[]float32", pgsql.Int4ArrayFromFloat32Slice, pgsql.Int4ArrayToFloat32Slice)
	reg[[]float64]("int4[]", "[]float64", pgsql.Int4ArrayFromFloat64Slice, pgsql.Int4ArrayToFloat64Slice)
	reg[string]("int4[]", "string", nil, nil)
	reg[[]byte]("int4[]", "[]byte", nil, nil)
	reg[[2]int]("int4range", "[2]int", pgsql.Int4RangeFromIntArray2, pgsql.Int4RangeToIntArray2)
	reg[[2]int8]("int4range", "[2]int8", pgsql.Int4RangeFromInt8Array2, pgsql.Int4RangeToInt8Array2)
	reg[[2]int16]("int4range", "[2]int16", pgsql.Int4RangeFromInt16Array2, pgsql.Int4RangeToInt16Array2)
	reg[[2]int32]("int4range", "[2]int32", pgsql.Int4RangeFromInt32Array2, pgsql.Int4RangeToInt32Array2)
	reg[[2]int64]("int4range", "[2]int64", pgsql.Int4RangeFromInt64Array2, pgsql.Int4RangeToInt64Array2)
	reg[[2]uint]("int4range", "[2]uint", pgsql.Int4RangeFromUintArray2, pgsql.Int4RangeToUintArray2)
	reg[[2]uint8]("int4range", "[2]uint8", pgsql.Int4RangeFromUint8Array2, pgsql.Int4RangeToUint8Array2)
	reg[[2]uint16]("int4range", "[2]uint16", pgsql.Int4RangeFromUint16Array2, pgsql.Int4RangeToUint16Array2)
	reg[[2]uint32]("int4range", "[2]uint32", pgsql.Int4RangeFromUint32Array2, pgsql.Int4RangeToUint32Array2)
	reg[[2]uint64]("int4range", "[2]uint64", pgsql.Int4RangeFromUint64Array2, pgsql.Int4RangeToUint64Array2)
	reg[[2]float32]("int4range", "[2]float32", pgsql.Int4RangeFromFloat32Array2, pgsql.Int4RangeToFloat32Array2)
	reg[[2]float64]("int4range", "[2]float64", pgsql.Int4RangeFromFloat64Array2, pgsql.Int4RangeToFloat64Array2)
	reg[string]("int4range", "string", nil, nil)
	reg[[]byte]("int4range", "[]byte", nil, nil)
	reg[[][2]int]("int4range[]", "[][2]int", pgsql.Int4RangeArrayFromIntArray2Slice, pgsql.Int4RangeArrayToIntArray2Slice)
	reg[[][2]int8]("int4range[]", "[][2]int8", pgsql.Int4RangeArrayFromInt8Array2Slice, pgsql.Int4RangeArrayToInt8Array2Slice)
	reg[[][2]int16]("int4range[]", "[][2]int16", pgsql.Int4RangeArrayFromInt16Array2Slice, pgsql.Int4RangeArrayToInt16Array2Slice)
	reg[[][2]int32]("int4range[]", "[][2]int32", pgsql.Int4RangeArrayFromInt32Array2Slice, pgsql.Int4RangeArrayToInt32Array2Slice)
	reg[[][2]int64]("int4range[]", "[][2]int64", pgsql.Int4RangeArrayFromInt64Array2Slice, pgsql.Int4RangeArrayToInt64Array2Slice)
	reg[[][2]uint]("int4range[]", "[][2]uint", pgsql.Int4RangeArrayFromUintArray2Slice, pgsql.Int4RangeArrayToUintArray2Slice)
	reg[[][2]uint8]("int4range[]", "[][2]uint8", pgsql.Int4RangeArrayFromUint8Array2Slice, pgsql.Int4RangeArrayToUint8Array2Slice)
	reg[[][2]uint16]("int4range[]", "[][2]uint16", pgsql.Int4RangeArrayFromUint16Array2Slice, pgsql.Int4RangeArrayToUint16Array2Slice)
	reg[[][2]uint32]("int4range[]", "[][2]uint32", pgsql.Int4RangeArrayFromUint32Array2Slice, pgsql.Int4RangeArrayToUint32Array2Slice)
	reg[[][2]uint64]("int4range[]", "[][2]uint64", pgsql.Int4RangeArrayFromUint64Array2Slice, pgsql.Int4RangeArrayToUint64Array2Slice)
	reg[[][2]float32]("int4range[]", "[][2]float32", pgsql.Int4RangeArrayFromFloat32Array2Slice, pgsql.Int4RangeArrayToFloat32Array2Slice)
	reg[[][2]float64]("int4range[]", "[][2]float64", pgsql.Int4RangeArrayFromFloat64Array2Slice, pgsql.Int4RangeArrayToFloat64Array2Slice)
	reg[string]("int4range[]", "string", nil, nil)
	reg[[]byte]("int4range[]", "[]byte", nil, nil)
	reg[int]("int8", "int", nil, nil)
	reg[int8]("int8", "int8", nil, nil)
	reg[int16]("int8", "int16", nil, nil)
	reg[int32]("int8", "int32", nil, nil)
	reg[int64]("int8", "int64", nil, nil)
	reg[uint]("int8", "uint", nil, nil)
	reg[uint8]("int8", "uint8", nil, nil)
	reg[uint16]("int8", "uint16", nil, nil)
	reg[uint32]("int8", "uint32", nil, nil)
	reg[uint64]("int8", "uint64", nil, nil)
	reg[float32]("int8", "float32", nil, nil)
	reg[float64]("int8", "float64", nil, nil)
	reg[string]("int8", "string", nil, nil)
	reg[[]byte]("int8", "[]byte", nil, nil)
	reg[[]int]("int8[]", "[]int", pgsql.Int8ArrayFromIntSlice, pgsql.Int8ArrayToIntSlice)
	reg[[]int8]("int8[]", "[]int8", pgsql.Int8ArrayFromInt8Slice, pgsql.Int8ArrayToInt8Slice)
	reg[[]int16]("int8[]", "[]int16", pgsql.Int8ArrayFromInt16Slice, pgsql.Int8ArrayToInt16Slice)
	reg[[]int32]("int8[]", "[]int32", pgsql.Int8ArrayFromInt32Slice, pgsql.Int8ArrayToInt32Slice)
	reg[[]int64]("int8[]", "[]int64", pgsql.Int8ArrayFromInt64Slice, pgsql.Int8ArrayToInt64Slice)
	reg[[]uint]("int8[]", "[]uint", pgsql.Int8ArrayFromUintSlice, pgsql.Int8ArrayToUintSlice)
	reg[[]uint8]("int8[]", "[]uint8", pgsql.Int8ArrayFromUint8Slice, pgsql.Int8ArrayToUint8Slice)
	reg[[]uint16]("int8[]", "[]uint16", pgsql.Int8ArrayFromUint16Slice, pgsql.Int8ArrayToUint16Slice)
	reg[[]uint32]("int8[]", "[]uint32", pgsql.Int8ArrayFromUint32Slice, pgsql.Int8ArrayToUint32Slice)
	reg[[]uint64]("int8[]", "[]uint64", pgsql.Int8ArrayFromUint64Slice, pgsql.Int8ArrayToUint64Slice)
	reg[[]float32]("int8[]", "[]float32", pgsql.Int8ArrayFromFloat32Slice, pgsql.Int8ArrayToFloat32Slice)
	reg[[]float64]("int8[]", "[]float64", pgsql.Int8ArrayFromFloat64Slice, pgsql.Int8ArrayToFloat64Slice)
	reg[string]("int8[]", "string", nil, nil)
	reg[[]byte]("int8[]", "[]byte", nil, nil)
	reg[[2]int]("int8range", "[2]int", pgsql.Int8RangeFromIntArray2, pgsql.Int8RangeToIntArray2)
	reg[[2]int8]("int8range", "[2]int8", pgsql.Int8RangeFromInt8Array2, pgsql.Int8RangeToInt8Array2)
	reg[[2]int16]("int8range", "[2]int16", pgsql.Int8RangeFromInt16Array2, pgsql.Int8RangeToInt16Array2)
	reg[[2]int32]("int8range", "[2]int32", pgsql.Int8RangeFromInt32Array2, pgsql.Int8RangeToInt32Array2)
	reg[[2]int64]("int8range", "[2]int64", pgsql.Int8RangeFromInt64Array2, pgsql.Int8RangeToInt64Array2)
	reg[[2]uint]("int8range", "[2]uint", pgsql.Int8RangeFromUintArray2, pgsql.Int8RangeToUintArray2)
	reg[[2]uint8]("int8range", "[2]uint8", pgsql.Int8RangeFromUint8Array2, pgsql.Int8RangeToUint8Array2)
	reg[[2]uint16]("int8range", "[2]uint16", pgsql.Int8RangeFromUint16Array2, pgsql.Int8RangeToUint16Array2)
	reg[[2]uint32]("int8range", "[2]uint32", pgsql.Int8RangeFromUint32Array2, pgsql.Int8RangeToUint32Array2)
	reg[[2]uint64]("int8range", "[2]uint64", pgsql.Int8RangeFromUint64Array2, pgsql.Int8RangeToUint64Array2)
	reg[[2]float32]("int8range", "[2]float32", pgsql.Int8RangeFromFloat32Array2, pgsql.Int8RangeToFloat32Array2)
	reg[[2]float64]("int8range", "[2]float64", pgsql.Int8RangeFromFloat64Array2, pgsql.Int8RangeToFloat64Array2)
	reg[string]("int8range", "string", nil, nil)
	reg[[]byte]("int8range", "[]byte", nil, nil)
	reg[[][2]int]("int8range[]", "[][2]int", pgsql.Int8RangeArrayFromIntArray2Slice, pgsql.Int8RangeArrayToIntArray2Slice)
	reg[[][2]int8]("int8range[]", "[][2]int8", pgsql.Int8RangeArrayFromInt8Array2Slice, pgsql.Int8RangeArrayToInt8Array2Slice)
	reg[[][2]int16]("int8range[]", "[][2]int16", pgsql.Int8RangeArrayFromInt16Array2Slice, pgsql.Int8RangeArrayToInt16Array2Slice)
	reg[[][2]int32]("int8range[]", "[][2]int32", pgsql.Int8RangeArrayFromInt32Array2Slice, pgsql.Int8RangeArrayToInt32Array2Slice)
	reg[[][2]int64]("int8range[]", "[][2]int64", pgsql.Int8RangeArrayFromInt64Array2Slice, pgsql.Int8RangeArrayToInt64Array2Slice)
	reg[[][2]uint]("int8range[]", "[][2]uint", pgsql.Int8RangeArrayFromUintArray2Slice, pgsql.Int8RangeArrayToUintArray2Slice)
	reg[[][2]uint8]("int8range[]", "[][2]uint8", pgsql.Int8RangeArrayFromUint8Array2Slice, pgsql.Int8RangeArrayToUint8Array2Slice)
	reg[[][2]uint16]("int8range[]", "[][2]uint16", pgsql.Int8RangeArrayFromUint16Array2Slice, pgsql.Int8RangeArrayToUint16Array2Slice)
	reg[[][2]uint32]("int8range[]", "[][2]uint32", pgsql.Int8RangeArrayFromUint32Array2Slice, pgsql.Int8RangeArrayToUint32Array2Slice)
	reg[[][2]uint64]("int8range[]", "[][2]uint64", pgsql.Int8RangeArrayFromUint64Array2Slice, pgsql.Int8RangeArrayToUint64Array2Slice)
	reg[[][2]float32]("int8range[]", "[][2]float32", pgsql.Int8RangeArrayFromFloat32Array2Slice, pgsql.Int8RangeArrayToFloat32Array2Slice)
	reg[[][2]float64]("int8range[]", "[][2]float64", pgsql.Int8RangeArrayFromFloat64Array2Slice, pgsql.Int8RangeArrayToFloat64Array2Slice)
	reg[string]("int8range[]", "string", nil, nil)
	reg[[]byte]("int8range[]", "[]byte", nil, nil)
	reg[string]("interval", "string", nil, nil)
	reg[[]byte]("interval", "[]byte", nil, nil)
	reg[string]("interval[]", "string", nil, nil)
	reg[[]byte]("interval[]", "[]byte", nil, nil)
	reg[interface{}]("json", "interface{}", func(v interface{}) driverValuer { return pgsql.JSON(v) }, func(p *interface{}) sql.Scanner { return pgsql.JSON(p) })
	reg[string]("json", "string", nil, nil)
	reg[[]byte]("json", "[]byte", nil, nil)
	reg[[][]byte]("json[]", "[][]byte", pgsql.JSONArrayFromByteSliceSlice, pgsql.JSONArrayToByteSliceSlice)
	reg[string]("json[]", "string", nil, nil)
	reg[[]byte]("json[]", "[]byte", nil, nil)
	reg[interface{}]("jsonb", "interface{}", func(v interface{}) driverValuer { return pgsql.JSON(v) }, func(p *interface{}) sql.Scanner { return pgsql.JSON(p) })
	reg[string]("jsonb", "string", nil, nil)
	reg[[]byte]("jsonb", "[]byte", nil, nil)
	reg[[][]byte]("jsonb[]", "[][]byte", pgsql.JSONArrayFromByteSliceSlice, pgsql.JSONArrayToByteSliceSlice)
	reg[string]("jsonb[]", "string", nil, nil)
	reg[[]byte]("jsonb[]", "[]byte", nil, nil)
	reg[[3]float64]("line", "[3]float64", pgsql.LineFromFloat64Array3, pgsql.LineToFloat64Array3)
	reg[string]("line", "string", nil, nil)
	reg[[]byte]("line", "[]byte", nil, nil)
	reg[[][3]float64]("line[]", "[][3]float64", pgsql.LineArrayFromFloat64Array3Slice, pgsql.LineArrayToFloat64Array3Slice)
	reg[string]("line[]", "string", nil, nil)
	reg[[]byte]("line[]", "[]byte", nil, nil)
	reg[[2][2]float64]("lseg", "[2][2]float64", pgsql.LsegFromFloat64Array2Array2, pgsql.LsegToFloat64Array2Array2)
	reg[string]("lseg", "string", nil, nil)
	reg[[]byte]("lseg", "[]byte", nil, nil)
	reg[[][2][2]float64]("lseg[]", "[][2][2]float64", pgsql.LsegArrayFromFloat64Array2Array2Slice, pgsql.LsegArrayToFloat64Array2Array2Slice)
	reg[string]("lseg[]", "string", nil, nil)
	reg[[]byte]("lseg[]", "[]byte", nil, nil)
	reg[net.HardwareAddr]("macaddr", "net.HardwareAddr", pgsql.MACAddrFromHardwareAddr, pgsql.MACAddrToHardwareAddr)
	reg[string]("macaddr", "string", nil, nil)
	reg[[]byte]("macaddr", "[]byte", nil, nil)
	reg[[]net.HardwareAddr]("macaddr[]", "[]net.HardwareAddr", pgsql.MACAddrArrayFromHardwareAddrSlice, pgsql.MACAddrArrayToHardwareAddrSlice)
	reg[string]("macaddr[]", "string", nil, nil)
	reg[[]byte]("macaddr[]", "[]byte", nil, nil)
	reg[net.HardwareAddr]("macaddr8", "net.HardwareAddr", pgsql.MACAddr8FromHardwareAddr, pgsql.MACAddr8ToHardwareAddr)
	reg[string]("macaddr8", "string", nil, nil)
	reg[[]byte]("macaddr8", "[]byte", nil, nil)
	reg[[]net.HardwareAddr]("macaddr8[]", "[]net.HardwareAddr", pgsql.MACAddr8ArrayFromHardwareAddrSlice, pgsql.MACAddr8ArrayToHardwareAddrSlice)
	reg[string]("macaddr8[]", "string", nil, nil)
	reg[[]byte]("macaddr8[]", "[]byte", nil, nil)
	reg[int64]("money", "int64", pgsql.MoneyFromInt64, pgsql.MoneyToInt64)
	reg[string]("money", "string", nil, nil)
	reg[[]byte]("money", "[]byte", nil, nil)
	reg[[]int64]("money[]", "[]int64", pgsql.MoneyArrayFromInt64Slice, pgsql.MoneyArrayToInt64Slice)
	reg[string]("money[]", "string", nil, nil)
	reg[[]byte]("money[]", "[]byte", nil, nil)
	reg[int]("numeric", "int", nil, nil)
	reg[int8]("numeric", "int8", nil, nil)
	reg[int16]("numeric", "int16", nil, nil)
	reg[int32]("numeric", "int32", nil, nil)
	reg[int64]("numeric", "int64", nil, nil)
	reg[uint]("numeric", "uint", nil, nil)
	reg[uint8]("numeric", "uint8", nil, nil)
	reg[uint16]("numeric", "uint16", nil, nil)
	reg[uint32]("numeric", "uint32", nil, nil)
	reg[uint64]("numeric", "uint64", nil, nil)
	reg[float32]("numeric", "float32", nil, nil)
	reg[float64]("numeric", "float64", nil, nil)
	reg[string]("numeric", "string", nil, nil)
	reg[[]byte]("numeric", "[]byte", nil, nil)
	reg[[]int]("numeric[]", "[]int", pgsql.NumericArrayFromIntSlice, pgsql.NumericArrayToIntSlice)
	reg[[]int8]("numeric[]", "[]int8", pgsql.NumericArrayFromInt8Slice, pgsql.NumericArrayToInt8Slice)
	reg[[]int16]("numeric[]", "[]int16", pgsql.NumericArrayFromInt16Slice, pgsql.NumericArrayToInt16Slice)
	reg[[]int32]("numeric[]", "[]int32", pgsql.NumericArrayFromInt32Slice, pgsql.NumericArrayToInt32Slice)
	reg[[]int64]("numeric[]", "[]int64", pgsql.NumericArrayFromInt64Slice, pgsql.NumericArrayToInt64Slice)
	reg[[]uint]("numeric[]", "[]uint", pgsql.NumericArrayFromUintSlice, pgsql.NumericArrayToUintSlice)
	reg[[]uint8]("numeric[]", "[]uint8", pgsql.NumericArrayFromUint8Slice, pgsql.NumericArrayToUint8Slice)
	reg[[]uint16]("numeric[]", "[]uint16", pgsql.NumericArrayFromUint16Slice, pgsql.NumericArrayToUint16Slice)
	reg[[]uint32]("numeric[]", "[]uint32", pgsql.NumericArrayFromUint32Slice, pgsql.NumericArrayToUint32Slice)
	reg[[]uint64]("numeric[]", "[]uint64", pgsql.NumericArrayFromUint64Slice, pgsql.NumericArrayToUint64Slice)
	reg[[]float32]("numeric[]", "[]float32", pgsql.NumericArrayFromFloat32Slice, pgsql.NumericArrayToFloat32Slice)
	reg[[]float64]("numeric[]", "[]float64", pgsql.NumericArrayFromFloat64Slice, pgsql.NumericArrayToFloat64Slice)
	reg[string]("numeric[]", "string", nil, nil)
	reg[[]byte]("numeric[]", "[]byte", nil, nil)
	reg[[2]int]("numrange", "[2]int", pgsql.NumRangeFromIntArray2, pgsql.NumRangeToIntArray2)
	reg[[2]int8]("numrange", "[2]int8", pgsql.NumRangeFromInt8Array2, pgsql.NumRangeToInt8Array2)
	reg[[2]int16]("numrange", "[2]int16", pgsql.NumRangeFromInt16Array2, pgsql.NumRangeToInt16Array2)
	reg[[2]int32]("numrange", "[2]int32", pgsql.NumRangeFromInt32Array2, pgsql.NumRangeToInt32Array2)
	reg[[2]int64]("numrange", "[2]int64", pgsql.NumRangeFromInt64Array2, pgsql.NumRangeToInt64Array2)
	reg[[2]uint]("numrange", "[2]uint", pgsql.NumRangeFromUintArray2, pgsql.NumRangeToUintArray2)
	reg[[2]uint8]("numrange", "[2]uint8", pgsql.NumRangeFromUint8Array2, pgsql.NumRangeToUint8Array2)
	reg[[2]uint16]("numrange", "[2]uint16", pgsql.NumRangeFromUint16Array2, pgsql.NumRangeToUint16Array2)
	reg[[2]uint32]("numrange", "[2]uint32", pgsql.NumRangeFromUint32Array2, pgsql.NumRangeToUint32Array2)
	reg[[2]uint64]("numrange", "[2]uint64", pgsql.NumRangeFromUint64Array2, pgsql.NumRangeToUint64Array2)
	reg[[2]float32]("numrange", "[2]float32", pgsql.NumRangeFromFloat32Array2, pgsql.NumRangeToFloat32Array2)
	reg[[2]float64]("numrange", "[2]float64", pgsql.NumRangeFromFloat64Array2, pgsql.NumRangeToFloat64Array2)
	reg[string]("numrange", "string", nil, nil)
	reg[[]byte]("numrange", "[]byte", nil, nil)
	reg[[][2]int]("numrange[]", "[][2]int", pgsql.NumRangeArrayFromIntArray2Slice, pgsql.NumRangeArrayToIntArray2Slice)
	reg[[][2]int8]("numrange[]", "[][2]int8", pgsql.NumRangeArrayFromInt8Array2Slice, pgsql.NumRangeArrayToInt8Array2Slice)
	reg[[][2]int16]("numrange[]", "[][2]int16", pgsql.NumRangeArrayFromInt16Array2Slice, pgsql.NumRangeArrayToInt16Array2Slice)
	reg[[][2]int32]("numrange[]", "[][2]int32", pgsql.NumRangeArrayFromInt32Array2Slice, pgsql.NumRangeArrayToInt32Array2Slice)
	reg[[][2]int64]("numrange[]", "[][2]int64", pgsql.NumRangeArrayFromInt64Array2Slice, pgsql.NumRangeArrayToInt64Array2Slice)
	reg[[][2]uint]("numrange[]", "[][2]uint", pgsql.NumRangeArrayFromUintArray2Slice, pgsql.NumRangeArrayToUintArray2Slice)
	reg[[][2]uint8]("numrange[]", "[][2]uint8", pgsql.NumRangeArrayFromUint8Array2Slice, pgsql.NumRangeArrayToUint8Array2Slice)
	reg[[][2]uint16]("numrange[]", "[][2]uint16", pgsql.NumRangeArrayFromUint16Array2Slice, pgsql.NumRangeArrayToUint16Array2Slice)
	reg[[][2]uint32]("numrange[]", "[][2]uint32", pgsql.NumRangeArrayFromUint32Array2Slice, pgsql.NumRangeArrayToUint32Array2Slice)
	reg[[][2]uint64]("numrange[]", "[][2]uint64", pgsql.NumRangeArrayFromUint64Array2Slice, pgsql.NumRangeArrayToUint64Array2Slice)
	reg[[][2]float32]("numrange[]", "[][2]float32", pgsql.NumRangeArrayFromFloat32Array2Slice, pgsql.NumRangeArrayToFloat32Array2Slice)
	reg[[][2]float64]("numrange[]", "[][2]float64", pgsql.NumRangeArrayFromFloat64Array2Slice, pgsql.NumRangeArrayToFloat64Array2Slice)
	reg[string]("numrange[]", "string", nil, nil)
	reg[[]byte]("numrange[]", "[]byte", nil, nil)
	reg[[][2]float64]("path", "[][2]float64", pgsql.PathFromFloat64Array2Slice, pgsql.PathToFloat64Array2Slice)
	reg[string]("path", "string", nil, nil)
	reg[[]byte]("path", "[]byte", nil, nil)
	reg[[][][2]float64]("path[]", "[][][2]float64", pgsql.PathArrayFromFloat64Array2SliceSlice, pgsql.PathArrayToFloat64Array2SliceSlice)
	reg[string]("path[]", "string", nil, nil)
	reg[[]byte]("path[]", "[]byte", nil, nil)
	reg[[2]float64]("point", "[2]float64", pgsql.PointFromFloat64Array2, pgsql.PointToFloat64Array2)
	reg[string]("point", "string", nil, nil)
	reg[[]byte]("point", "[]byte", nil, nil)
	reg[[][2]float64]("point[]", "[][2]float64", pgsql.PointArrayFromFloat64Array2Slice, pgsql.PointArrayToFloat64Array2Slice)
	reg[string]("point[]", "string", nil, nil)
	reg[[]byte]("point[]", "[]byte", nil, nil)
	reg[[][2]float64]("polygon", "[][2]float64", pgsql.PolygonFromFloat64Array2Slice, pgsql.PolygonToFloat64Array2Slice)
	reg[string]("polygon", "string", nil, nil)
	reg[[]byte]("polygon", "[]byte", nil, nil)
	reg[[][][2]float64]("polygon[]", "[][][2]float64", pgsql.PolygonArrayFromFloat64Array2SliceSlice, pgsql.PolygonArrayToFloat64Array2SliceSlice)
	reg[string]("polygon[]", "string", nil, nil)
	reg[[]byte]("polygon[]", "[]byte", nil, nil)
	reg[string]("text", "string", nil, nil)
	reg[[]byte]("text", "[]byte", nil, nil)
	reg[[]string]("text[]", "[]string", pgsql.TextArrayFromStringSlice, pgsql.TextArrayToStringSlice)
	reg[[][]byte]("text[]", "[][]byte", pgsql.TextArrayFromByteSliceSlice, pgsql.TextArrayToByteSliceSlice)
	reg[string]("text[]", "string", nil, nil)
	reg[[]byte]("text[]", "[]byte", nil, nil)
	reg[time.Time]("time", "time.Time", nil, nil)
	reg[string]("time", "string", nil, pgsql.TimeToString)
	reg[[]byte]("time", "[]byte", nil, pgsql.TimeToByteSlice)
	reg[[]time.Time]("time[]", "[]time.Time", pgsql.TimeArrayFromTimeSlice, pgsql.TimeArrayToTimeSlice)
	reg[string]("time[]", "string", nil, nil)
	reg[[]byte]("time[]", "[]byte", nil, nil)
	reg[time.Time]("timestamp", "time.Time", nil, nil)
	reg[string]("timestamp", "string", nil, nil)
	reg[[]byte]("timestamp", "[]byte", nil, nil)
	reg[[]time.Time]("timestamp[]", "[]time.Time", pgsql.TimestampArrayFromTimeSlice, pgsql.TimestampArrayToTimeSlice)
	reg[string]("timestamp[]", "string", nil, nil)
	reg[[]byte]("timestamp[]", "[]byte", nil, nil)
	reg[time.Time]("timestamptz", "time.Time", nil, nil)
	reg[string]("timestamptz", "string", nil, nil)
	reg[[]byte]("timestamptz", "[]byte", nil, nil)
	reg[[]time.Time]("timestamptz[]", "[]time.Time", pgsql.TimestamptzArrayFromTimeSlice, pgsql.TimestamptzArrayToTimeSlice)
	reg[string]("timestamptz[]", "string", nil, nil)
	reg[[]byte]("timestamptz[]", "[]byte", nil, nil)
	reg[time.Time]("timetz", "time.Time", nil, nil)
	reg[string]("timetz", "string", nil, pgsql.TimetzToString)
	reg[[]byte]("timetz", "[]byte", nil, pgsql.TimetzToByteSlice)
	reg[[]time.Time]("timetz[]", "[]time.Time", pgsql.TimetzArrayFromTimeSlice, pgsql.TimetzArrayToTimeSlice)
	reg[string]("timetz[]", "string", nil, nil)
	reg[[]byte]("timetz[]", "[]byte", nil, nil)
	reg[string]("tsquery", "string", nil, nil)
	reg[[]byte]("tsquery", "[]byte", nil, nil)
	reg[[]string]("tsquery[]", "[]string", pgsql.TSQueryArrayFromStringSlice, pgsql.TSQueryArrayToStringSlice)
	reg[[][]byte]("tsquery[]", "[][]byte", pgsql.TSQueryArrayFromByteSliceSlice, pgsql.TSQueryArrayToByteSliceSlice)
	reg[string]("tsquery[]", "string", nil, nil)
	reg[[]byte]("tsquery[]", "[]byte", nil, nil)
	reg[[2]time.Time]("tsrange", "[2]time.Time", pgsql.TsRangeFromTimeArray2, pgsql.TsRangeToTimeArray2)
	reg[string]("tsrange", "string", nil, nil)
	reg[[]byte]("tsrange", "[]byte", nil, nil)
	reg[[][2]time.Time]("tsrange[]", "[][2]time.Time", pgsql.TsRangeArrayFromTimeArray2Slice, pgsql.TsRangeArrayToTimeArray2Slice)
	reg[string]("tsrange[]", "string", nil, nil)
	reg[[]byte]("tsrange[]", "[]byte", nil, nil)
	reg[[2]time.Time]("tstzrange", "[2]time.Time", pgsql.TstzRangeFromTimeArray2, pgsql.TstzRangeToTimeArray2)
	reg[string]("tstzrange", "string", nil, nil)
	reg[[]byte]("tstzrange", "[]byte", nil, nil)
	reg[[][2]time.Time]("tstzrange[]", "[][2]time.Time", pgsql.TstzRangeArrayFromTimeArray2Slice, pgsql.TstzRangeArrayToTimeArray2Slice)
	reg[string]("tstzrange[]", "string", nil, nil)
	reg[[]byte]("tstzrange[]", "[]byte", nil, nil)
	reg[[]string]("tsvector", "[]string", pgsql.TSVectorFromStringSlice, pgsql.TSVectorToStringSlice)
	reg[[][]byte]("tsvector", "[][]byte", pgsql.TSVectorFromByteSliceSlice, pgsql.TSVectorToByteSliceSlice)
	reg[string]("tsvector", "string", nil, nil)
	reg[[]byte]("tsvector", "[]byte", nil, nil)
	reg[[][]string]("tsvector[]", "[][]string", pgsql.TSVectorArrayFromStringSliceSlice, pgsql.TSVectorArrayToStringSliceSlice)
	reg[[][][]byte]("tsvector[]", "[][][]byte", pgsql.TSVectorArrayFromByteSliceSliceSlice, pgsql.TSVectorArrayToByteSliceSliceSlice)
	reg[string]("tsvector[]", "string", nil, nil)
	reg[[]byte]("tsvector[]", "[]byte", nil, nil)
	reg[[16]byte]("uuid", "[16]byte", pgsql.UUIDFromByteArray16, pgsql.UUIDToByteArray16)
	reg[string]("uuid", "string", nil, nil)
	reg[[]byte]("uuid", "[]byte", nil, nil)
	reg[[][16]byte]("uuid[]", "[][16]byte", pgsql.UUIDArrayFromByteArray16Slice, pgsql.UUIDArrayToByteArray16Slice)
	reg[[]string]("uuid[]", "[]string", pgsql.UUIDArrayFromStringSlice, pgsql.UUIDArrayToStringSlice)
	reg[[][]byte]("uuid[]", "[][]byte", pgsql.UUIDArrayFromByteSliceSlice, pgsql.UUIDArrayToByteSliceSlice)
	reg[string]("uuid[]", "string", nil, nil)
	reg[[]byte]("uuid[]", "[]byte", nil, nil)
	reg[int64]("varbit", "int64", pgsql.VarBitFromInt64, pgsql.VarBitToInt64)
	reg[[]bool]("varbit", "[]bool", pgsql.VarBitFromBoolSlice, pgsql.VarBitToBoolSlice)
	reg[[]uint8]("varbit", "[]uint8", pgsql.VarBitFromUint8Slice, pgsql.VarBitToUint8Slice)
	reg[string]("varbit", "string", nil, nil)
	reg[[]byte]("varbit", "[]byte", nil, nil)
	reg[[]int64]("varbit[]", "[]int64", pgsql.VarBitArrayFromInt64Slice, pgsql.VarBitArrayToInt64Slice)
	reg[[][]bool]("varbit[]", "[][]bool", pgsql.VarBitArrayFromBoolSliceSlice, pgsql.VarBitArrayToBoolSliceSlice)
	reg[[][]uint8]("varbit[]", "[][]uint8", pgsql.VarBitArrayFromUint8SliceSlice, pgsql.VarBitArrayToUint8SliceSlice)
	reg[[]string]("varbit[]", "[]string", pgsql.VarBitArrayFromStringSlice, pgsql.VarBitArrayToStringSlice)
	reg[string]("varbit[]", "string", nil, nil)
	reg[[]byte]("varbit[]", "[]byte", nil, nil)
	reg[string]("varchar", "string", nil, nil)
	reg[[]byte]("varchar", "[]byte", nil, nil)
	reg[[]string]("varchar[]", "[]string", pgsql.VarCharArrayFromStringSlice, pgsql.VarCharArrayToStringSlice)
	reg[[][]byte]("varchar[]", "[][]byte", pgsql.VarCharArrayFromByteSliceSlice, pgsql.VarCharArrayToByteSliceSlice)
	reg[string]("varchar[]", "string", nil, nil)
	reg[[]byte]("varchar[]", "[]byte", nil, nil)
	reg[*XDoc]("xml", "interface{}", func(v *XDoc) driverValuer {
		if v == nil {
			return pgsql.XML(nil)
		}
		return pgsql.XML(v)
	}, func(p **XDoc) sql.Scanner { return xdocScan{p} })
	reg[string]("xml", "string", nil, nil)
	reg[[]byte]("xml", "[]byte", nil, nil)
	reg[[][]byte]("xml[]", "[][]byte", pgsql.XMLArrayFromByteSliceSlice, pgsql.XMLArrayToByteSliceSlice)
	reg[string]("xml[]", "string", nil, nil)
	reg[[]byte]("xml[]", "[]byte", nil, nil)
	for _, pg := range []string{"text", "bytea", "int4", "float8", "bool", "timestamptz", "json", "text[]"} {
		reg[anyVal](pg, "any", nil, func(p *anyVal) sql.Scanner { return pgsql.AnyToEmptyInterface(&p.V) })
	}
}
