// Code generated by shimgen; DO NOT EDIT.

package net

import real "net"

type Addr = real.Addr
type AddrError = real.AddrError
type Buffers = real.Buffers

var CIDRMask = real.CIDRMask

type Conn = real.Conn
type DNSConfigError = real.DNSConfigError
type DNSError = real.DNSError
type Dialer = real.Dialer

var ErrClosed = real.ErrClosed
var ErrWriteToConnected = real.ErrWriteToConnected

type Error = real.Error

const FlagBroadcast = real.FlagBroadcast
const FlagLoopback = real.FlagLoopback
const FlagMulticast = real.FlagMulticast
const FlagPointToPoint = real.FlagPointToPoint
const FlagRunning = real.FlagRunning
const FlagUp = real.FlagUp

type Flags = real.Flags
type HardwareAddr = real.HardwareAddr
type IP = real.IP
type IPAddr = real.IPAddr
type IPConn = real.IPConn
type IPMask = real.IPMask
type IPNet = real.IPNet

var IPv4 = real.IPv4
var IPv4Mask = real.IPv4Mask
var IPv4allrouter = real.IPv4allrouter
var IPv4allsys = real.IPv4allsys
var IPv4bcast = real.IPv4bcast

const IPv4len = real.IPv4len

var IPv4zero = real.IPv4zero
var IPv6interfacelocalallnodes = real.IPv6interfacelocalallnodes

const IPv6len = real.IPv6len

var IPv6linklocalallnodes = real.IPv6linklocalallnodes
var IPv6linklocalallrouters = real.IPv6linklocalallrouters
var IPv6loopback = real.IPv6loopback
var IPv6unspecified = real.IPv6unspecified
var IPv6zero = real.IPv6zero

type Interface = real.Interface
type InvalidAddrError = real.InvalidAddrError

var JoinHostPort = real.JoinHostPort

type KeepAliveConfig = real.KeepAliveConfig
type ListenConfig = real.ListenConfig
type Listener = real.Listener
type MX = real.MX
type NS = real.NS
type OpError = real.OpError
type PacketConn = real.PacketConn

var ParseCIDR = real.ParseCIDR

type ParseError = real.ParseError

var ParseIP = real.ParseIP
var ParseMAC = real.ParseMAC

type Resolver = real.Resolver
type SRV = real.SRV

var SplitHostPort = real.SplitHostPort

type TCPAddr = real.TCPAddr

var TCPAddrFromAddrPort = real.TCPAddrFromAddrPort

type TCPConn = real.TCPConn
type TCPListener = real.TCPListener
type UDPAddr = real.UDPAddr

var UDPAddrFromAddrPort = real.UDPAddrFromAddrPort

type UnixAddr = real.UnixAddr
type UnixConn = real.UnixConn
type UnknownNetworkError = real.UnknownNetworkError
