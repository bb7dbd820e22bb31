// Code generated by shimgen; DO NOT EDIT.

package signal

import real "os/signal"

var Ignored = real.Ignored
