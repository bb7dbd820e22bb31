// Code generated by shimgen; DO NOT EDIT.

package log

import real "log"

const LUTC = real.LUTC
const Ldate = real.Ldate
const Llongfile = real.Llongfile
const Lmicroseconds = real.Lmicroseconds
const Lmsgprefix = real.Lmsgprefix
const Lshortfile = real.Lshortfile
const LstdFlags = real.LstdFlags
const Ltime = real.Ltime
