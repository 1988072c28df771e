package lis

// Rules describe the case spaces.
var Rules = map[string]string{
	"C07": "all interleavings of two connections' scripts at request granularity, and all schedules up to the bound of deviations at every synchronisation and shared-variable operation of the instrumented server and ufs; each connection's replies must be those it gets alone. Crowds of up to 1100 connections open at once. Non-trivial: schedules with at least one decision.",
	"C14": "all sequences up to the depth of accept outcomes (connection, temporary error, other error, close), in virtual time; 20 errors of the host's listeners, in pairs; all schedules up to the bound of serve, accept and shutdown calls on one and two listeners; long runs of errors; up to hundreds of listeners on one server. Non-trivial: schedules with at least one decision or scripts with an error.",
}
