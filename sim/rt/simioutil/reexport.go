// Code generated by cmd/reexport; DO NOT EDIT.

package simioutil

import real "io/ioutil"

var Discard = real.Discard
var NopCloser = real.NopCloser
var ReadAll = real.ReadAll
