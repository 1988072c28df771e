package cli

// Rules describe the case spaces.
var Rules = map[string]string{
	"C08": "all schedules with at most the bound of deviations from the default schedule (preemption at every synchronisation, channel or shared-variable operation of the instrumented client) of two and three callers with one and two calls each, all reply orders, plenty of tags or fewer than callers; all pairs of call types x errors x reply orders; boundary values of all arguments and results of all calls. Non-trivial: schedules with at least one decision.",
	"C09": "as C08, with one to three tags left in the pool and more calls than tags; afterwards the pool is drained and compared; then more sequential calls than there are tags. Non-trivial: schedules with at least one decision.",
	"C10": "every byte position of the replies and requests of two or three callers x ways to end or fail there, reading and writing, x schedules up to the bound, with calls made afterwards; large replies cut at and around powers of two; every call must return, with its reply if that was complete and an error otherwise. Non-trivial: schedules with at least one decision.",
	"C11": "12 call types x all 255 wrong reply types, every damaged body, replies with tags nobody waits for (10 kinds x 6 types x 3 moments x tags left), duplicates, impossible sizes, up to thousands of them in a row, with other calls outstanding; interleavings of stray replies with calls up to the bound. Non-trivial: schedules with at least one decision.",
	"C12": "all ways to cut short reply streams into reads, all one and two cuts and chunk sizes of longer ones, with the end of the stream apart or together with the last bytes, with pauses between the pieces and with reads that return nothing; the results must be those of whole delivery. Non-trivial: at least one decision or cut.",
	"C13": "all schedules up to the bound of two and three goroutines obtaining file identifiers and tags while calls run and tags are few. Non-trivial: schedules with at least one decision.",
}
