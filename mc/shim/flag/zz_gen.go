// Code generated by shimgen; DO NOT EDIT.

package flag

import real "flag"

var BoolFunc = real.BoolFunc

const ContinueOnError = real.ContinueOnError

var ErrHelp = real.ErrHelp

type ErrorHandling = real.ErrorHandling

const ExitOnError = real.ExitOnError

type Flag = real.Flag
type FlagSet = real.FlagSet
type Getter = real.Getter

var NewFlagSet = real.NewFlagSet

const PanicOnError = real.PanicOnError

var TextVar = real.TextVar
var UnquoteUsage = real.UnquoteUsage

type Value = real.Value
