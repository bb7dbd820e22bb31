// Code generated by shimgen; DO NOT EDIT.

package http

import real "net/http"

type Client = real.Client
type ClientConn = real.ClientConn
type CloseNotifier = real.CloseNotifier
type ConnState = real.ConnState
type Cookie = real.Cookie
type CookieJar = real.CookieJar
type CrossOriginProtection = real.CrossOriginProtection

const DefaultMaxHeaderBytes = real.DefaultMaxHeaderBytes
const DefaultMaxHeaderValueCount = real.DefaultMaxHeaderValueCount
const DefaultMaxIdleConnsPerHost = real.DefaultMaxIdleConnsPerHost

type Dir = real.Dir

var Error = real.Error

type File = real.File
type FileSystem = real.FileSystem
type Flusher = real.Flusher
type HTTP2Config = real.HTTP2Config
type Handler = real.Handler
type HandlerFunc = real.HandlerFunc
type Header = real.Header
type Hijacker = real.Hijacker
type MaxBytesError = real.MaxBytesError

const MethodConnect = real.MethodConnect
const MethodDelete = real.MethodDelete
const MethodGet = real.MethodGet
const MethodHead = real.MethodHead
const MethodOptions = real.MethodOptions
const MethodPatch = real.MethodPatch
const MethodPost = real.MethodPost
const MethodPut = real.MethodPut
const MethodTrace = real.MethodTrace

var NewRequest = real.NewRequest
var NewServeMux = real.NewServeMux
var NotFoundHandler = real.NotFoundHandler

type ProtocolError = real.ProtocolError
type Protocols = real.Protocols
type PushOptions = real.PushOptions
type Pusher = real.Pusher
type Request = real.Request
type Response = real.Response
type ResponseController = real.ResponseController
type ResponseWriter = real.ResponseWriter
type RoundTripper = real.RoundTripper
type SameSite = real.SameSite

const SameSiteDefaultMode = real.SameSiteDefaultMode
const SameSiteLaxMode = real.SameSiteLaxMode
const SameSiteNoneMode = real.SameSiteNoneMode
const SameSiteStrictMode = real.SameSiteStrictMode

type ServeMux = real.ServeMux
type Server = real.Server

const StateActive = real.StateActive
const StateClosed = real.StateClosed
const StateHijacked = real.StateHijacked
const StateIdle = real.StateIdle
const StateNew = real.StateNew
const StatusAccepted = real.StatusAccepted
const StatusAlreadyReported = real.StatusAlreadyReported
const StatusBadGateway = real.StatusBadGateway
const StatusBadRequest = real.StatusBadRequest
const StatusConflict = real.StatusConflict
const StatusContinue = real.StatusContinue
const StatusCreated = real.StatusCreated
const StatusEarlyHints = real.StatusEarlyHints
const StatusExpectationFailed = real.StatusExpectationFailed
const StatusFailedDependency = real.StatusFailedDependency
const StatusForbidden = real.StatusForbidden
const StatusFound = real.StatusFound
const StatusGatewayTimeout = real.StatusGatewayTimeout
const StatusGone = real.StatusGone
const StatusHTTPVersionNotSupported = real.StatusHTTPVersionNotSupported
const StatusIMUsed = real.StatusIMUsed
const StatusInsufficientStorage = real.StatusInsufficientStorage
const StatusInternalServerError = real.StatusInternalServerError
const StatusLengthRequired = real.StatusLengthRequired
const StatusLocked = real.StatusLocked
const StatusLoopDetected = real.StatusLoopDetected
const StatusMethodNotAllowed = real.StatusMethodNotAllowed
const StatusMisdirectedRequest = real.StatusMisdirectedRequest
const StatusMovedPermanently = real.StatusMovedPermanently
const StatusMultiStatus = real.StatusMultiStatus
const StatusMultipleChoices = real.StatusMultipleChoices
const StatusNetworkAuthenticationRequired = real.StatusNetworkAuthenticationRequired
const StatusNoContent = real.StatusNoContent
const StatusNonAuthoritativeInfo = real.StatusNonAuthoritativeInfo
const StatusNotAcceptable = real.StatusNotAcceptable
const StatusNotExtended = real.StatusNotExtended
const StatusNotFound = real.StatusNotFound
const StatusNotImplemented = real.StatusNotImplemented
const StatusNotModified = real.StatusNotModified
const StatusOK = real.StatusOK
const StatusPartialContent = real.StatusPartialContent
const StatusPaymentRequired = real.StatusPaymentRequired
const StatusPermanentRedirect = real.StatusPermanentRedirect
const StatusPreconditionFailed = real.StatusPreconditionFailed
const StatusPreconditionRequired = real.StatusPreconditionRequired
const StatusProcessing = real.StatusProcessing
const StatusProxyAuthRequired = real.StatusProxyAuthRequired
const StatusRequestEntityTooLarge = real.StatusRequestEntityTooLarge
const StatusRequestHeaderFieldsTooLarge = real.StatusRequestHeaderFieldsTooLarge
const StatusRequestTimeout = real.StatusRequestTimeout
const StatusRequestURITooLong = real.StatusRequestURITooLong
const StatusRequestedRangeNotSatisfiable = real.StatusRequestedRangeNotSatisfiable
const StatusResetContent = real.StatusResetContent
const StatusSeeOther = real.StatusSeeOther
const StatusServiceUnavailable = real.StatusServiceUnavailable
const StatusSwitchingProtocols = real.StatusSwitchingProtocols
const StatusTeapot = real.StatusTeapot
const StatusTemporaryRedirect = real.StatusTemporaryRedirect

var StatusText = real.StatusText

const StatusTooEarly = real.StatusTooEarly
const StatusTooManyRequests = real.StatusTooManyRequests
const StatusUnauthorized = real.StatusUnauthorized
const StatusUnavailableForLegalReasons = real.StatusUnavailableForLegalReasons
const StatusUnprocessableEntity = real.StatusUnprocessableEntity
const StatusUnsupportedMediaType = real.StatusUnsupportedMediaType
const StatusUpgradeRequired = real.StatusUpgradeRequired
const StatusUseProxy = real.StatusUseProxy
const StatusVariantAlsoNegotiates = real.StatusVariantAlsoNegotiates
const TimeFormat = real.TimeFormat
const TrailerPrefix = real.TrailerPrefix

type Transport = real.Transport
