package ufsx

// Rules describe the case spaces.
var Rules = map[string]string{
	"C15": "all scripts attach(name) walk(names) action, over attach names, walks of zero to two names (and longer ones) and creates, renames, walks, opens, truncations and removals with names from an alphabet of escaping names; all scripts of two (thorough: three) actions from four places; five other spellings of the root. Each is run twice, in worlds that differ only outside of the root: the replies must agree, no QID of an outside file may appear, and everything outside must be as it was. Walks of up to 1024 names. Non-trivial (distinct): the script's replies.",
	"C16": "model checking: breadth-first over the states of a model of file identifiers and tree (3 identifiers, and 2 to a greater depth), every transition replayed on the real server from a fresh tree by a shortest trace; each reply's success and QID count, then stat, read, write and clunk of every identifier and the host tree are compared with the model. All sequences of four (thorough: five) of 16 requests are replayed without merging states. All sequences of three (thorough: four) changes made through this connection, through another one and directly on the host are observed after each change.",
	"C17": "model checking: breadth-first over the states of a model of two identifiers and byte-array files, every transition replayed on the real server; data, counts and the host files compared. Then all pairs of large offsets and counts, and offsets around 2^31, 2^32, 2^40 and 2^63. All sequences of four (thorough: five) of 14 reads, writes, truncations and clunks through three open identifiers are replayed without merging states. Files of every size around powers of two are written and read in pieces, with data patterns. All sequences of three (thorough: four) changes made through this connection, through another one and directly on the host are observed after each change.",
	"C18": "ten directories (0 to 5 entries, names of 1 to 255 bytes, names with dots, blanks and other bytes) x all sequences of read counts (0, 1, around the smallest and largest entry, several entries, 8000) and restarts up to the depth, through one and through two identifiers, then read to the end; large directories with periodic counts. Directories of every size up to a bound. All sequences of three (thorough: four) changes made through this connection, through another one and directly on the host are observed after each change. Non-trivial (distinct): the sequence of reads with its outcome.",
	"C19": "all 512 permission values for files and directories, names, lengths to 2^40, 81 modification times, kinds of files; 70000 files in one directory; the directories where the host's file systems are mounted; then all sequences of three (thorough: four) of 16 changes. After each, every file of the tree is looked at by attach, walk, stat, open and directory read, and all QIDs and stat data are compared with the host and with all earlier observations. All sequences of three (thorough: four) changes made through this connection, through another one and directly on the host are observed after each change.",
	"C20": "seven files x the product of 6 modes, 7 lengths, 9 names, 4 mtimes, 3 atimes; owner and group combinations; all permission bits; all sequences of three (thorough: four) of 15 changes on closed and open identifiers; undecodable records. All attributes and contents of all files before and after are compared. All sequences of three (thorough: four) changes made through this connection, through another one and directly on the host are observed after each change. Non-trivial (distinct): file, requests and replies.",
	"C21": "model checking: as C16 with creates (files and directories, 5 kinds of permission) and removes in directories of different permissions; then all 512 permissions x 5 create modes, and every other permission bit. Names with blanks, percent signs and other bytes.",
	"C22": "model checking: as C16 with clones, opens, renames; in every state the process's descriptors for files of the tree are compared with the number of open identifiers, garbage collection being off. All sequences of four (thorough: five) of 17 requests are replayed without merging states. Crowds of up to hundreds of open identifiers. All sequences of three (thorough: four) changes made through this connection, through another one and directly on the host are observed after each change.",
	"C25": "26 (thorough: over 400) message sizes asked for x renegotiation to 4 others x files and directories x file sizes around the message size x 22 counts up to 2^32-1 x offsets; the length of every reply is compared with the answered size, and files are read to the end; all sequences of three (thorough: four) good and bad version requests on two connections with reads in between. Non-trivial (distinct): message size, count, offset, file.",
}
