# Environment and build functions of the checks; sourced by check and setup.
for g in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin; do
	[ -x "$g/go" ] && PATH=$g:$PATH && break
done
export PATH GO111MODULE=on GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
unset GOPATH GOROOT
MOD=github.com/Harvey-OS/ninep

# overlay FILE [EXTRA]: the overlay that makes /repo a module; EXTRA are more "a": "b" entries.
overlay() {
	printf '{"Replace":{"%s/go.mod":"%s/harness/repo.mod"%s}}\n' "$REPO" "$V" "$2" > "$1"
}

# instrument DIR: write scheduling-controlled copies of the packages under DIR and set EXTRA.
instrument() {
	local d=$1
	overlay "$d/overlay0.json"
	(cd "$V/harness" && go build -o "$d/instr" ./instr) &&
	(cd "$V/harness" && go list -overlay "$d/overlay0.json" -export -deps -f '{{.ImportPath}} {{.Export}}' \
		$MOD/protocol $MOD/filesystem $MOD/pkg/debugfs > "$d/export.txt") &&
	mkdir -p "$d/inst" &&
	EXTRA=$("$d/instr" -out "$d/inst" -export "$d/export.txt" "$REPO/protocol=$MOD/protocol" \
		"$REPO/filesystem=$MOD/filesystem" "$REPO/pkg/debugfs=$MOD/pkg/debugfs")
}

# generate DIR: run the stub generator of the working tree under DIR and set EXTRA.
# The library not compiling is an error; the generator failing, or its output
# not compiling, breaks C24.
generate() {
	local d=$1 log=$V/evidence/replay-C24-gen.log
	overlay "$d/overlay0.json"
	(cd "$V/harness" && go build -overlay "$d/overlay0.json" $MOD/protocol) || { echo "build failed" >&2; return 3; }
	mkdir -p "$d/gen" "$V/evidence"
	EXTRA=',"'$REPO/protocol/genout.go'":"'$d/gen/genout.go'"'
	overlay "$d/overlay1.json" "$EXTRA"
	if ! { (cd "$V/harness" && go build -overlay "$d/overlay0.json" -o "$d/generator" "$REPO/protocol/gen.go") &&
		(cd "$d/gen" && timeout 120 "$d/generator" && test -s genout.go) &&
		(cd "$V/harness" && go build -overlay "$d/overlay1.json" $MOD/protocol); } > "$log" 2>&1; then
		cat "$log"
		printf '{"property":"C24","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":0,"rule":"building and running the generator","samples":["generator"]},"wall_s":0,"violations":1}\n' \
			"${VERIF_TIER:-quick}" "${VERIF_SEED:-0}" > "$V/evidence/C24.json"
		echo "VIOLATION property=C24 replay=$log"
		return 1
	fi
	rm -f "$log"
}

# build PKG DIR: build the test binary of harness package PKG into DIR/t.test.
# The code under test not compiling is not a verdict: exit 3.
# Packages that control the schedule get instrumented code; should that not
# build, they run on the code as it is, and say so in the evidence.
build() {
	local ov=$2/overlay.json EXTRA=
	unset VK_PLAIN
	case $1 in
	tclient|trace)
		if [ $1 = trace ]; then
			# the harness itself is left alone by the race detector; so must not be what it calls
			export CGO_ENABLED=1
			# code that the race detector leaves alone must still tell it of what it allocates
			export GOEXPERIMENT=nosizespecializedmalloc
			go env GOEXPERIMENT > "$2/goexp" 2>&1 || unset GOEXPERIMENT
			set -- tclient "$2" -race '-gcflags=ninepverif/...=-race=false -l' -gcflags=ninepverif/api= -gcflags=ninepverif/kit= -gcflags=ninepverif/sched/satomic=
		fi
		if instrument "$2" && overlay "$ov" "$EXTRA" &&
			(cd "$V/harness" && go test "${@:3}" -vet=off -overlay "$ov" -c -o "$2/t.test" "./$1"); then
			return 0
		fi
		echo "instrumented build failed; building the code as it is" >&2
		export VK_PLAIN=1
		;;
	tgen)
		generate "$2" || return $?
		;;
	esac
	overlay "$ov" "$EXTRA"
	(cd "$V/harness" && go test "${@:3}" -vet=off -overlay "$ov" -c -o "$2/t.test" "./$1") || { echo "build failed" >&2; return 3; }
}
