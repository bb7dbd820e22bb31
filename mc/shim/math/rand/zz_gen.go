// Code generated by shimgen; DO NOT EDIT.

package rand

import real "math/rand"

var ExpFloat64 = real.ExpFloat64
var New = real.New
var NewSource = real.NewSource
var NewZipf = real.NewZipf
var NormFloat64 = real.NormFloat64

type Rand = real.Rand
type Source = real.Source
type Source64 = real.Source64
type Zipf = real.Zipf
