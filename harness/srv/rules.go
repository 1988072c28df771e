package srv

// Rules describes the enumerations for the evidence.
var Rules = map[string]string{
	"C03": "all sequences up to the depth over 34 requests (12 types x success/error, 10 unsupported types), three tag patterns, lockstep and pipelined; then every argument and result field of every type over its boundary values, all tags, error texts, and all unsupported type bytes; operations and silences of up to 400 days of virtual time. The real server runs in a synctest bubble; operations invoked and reply bytes are compared with an independent encoder. Non-trivial: at least two requests after version.",
	"C04": "all 2^17 ways to cut an 18-byte stream (thorough: also 2^19 of a 20-byte one) into reads; all one and two cuts (short streams: three) and all regular chunk sizes of five longer streams; the version request cut or merged with what follows, with the end of the stream separate from or together with the last bytes. The same with pauses between the pieces, in which the replies to what is complete must arrive. Operations and reply bytes must be those of whole-message delivery. Non-trivial: at least one cut.",
	"C05": "five conversations x every byte position x five ways for the stream to end there; every byte position at which writing fails; every malformed body derived from each request type (truncations, trailing bytes, damaged lengths); impossible and oversized sizes; large requests cut at and around powers of two; always with a second connection that must work before and after. Non-trivial: a request is incomplete, malformed or unanswered.",
	"C06": "every message type (0..255) with well-formed, malformed and empty bodies as request before version; all sequences of early requests up to the depth; then version and one request of every type; all interleavings of two connections' five-step scripts. Non-trivial: at least one early request.",
	"C23": "every operation x every outcome (success, 6 errors, values together with an error) x every argument and result field over its boundary values and undecodable stat data; all pairs of operations x outcomes against a stateful server, with and without the wrapper; all conversations of three out of 34 requests with ufs, with and without its -debug flag. Non-trivial: the operation has arguments.",
}
