package main

import (
	"reflect"
	"thrift"
)

// compareInt64 calls thrift.CompareInt64 with the arguments it takes.
func compareInt64(i, j int64) int {
	f := reflect.ValueOf(thrift.CompareInt64)
	t := f.Type().In(0)
	return int(f.Call([]reflect.Value{reflect.ValueOf(i).Convert(t), reflect.ValueOf(j).Convert(t)})[0].Int())
}
