#!/bin/bash
# run.sh PROPERTY TIER [flags]   check one property against the current tree of /repo
# run.sh replay FILE             re-execute a recorded violation
# run.sh setup                   compile the tools once
# run.sh e2e [SCRIPT]            compare the simulated client with the real one in scripted use
# run.sh conform [FS [NET]]      compare the simulated environment with the real one, to those depths
root=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=/root LANG=${LANG:-C.UTF-8} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin
cd "$root/mc" || exit 3
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
group() {
	case $1 in
	C01|C02|C03|C04|C05|C23) echo seq;;
	C07|C08|C09|C10|C11|C20) echo cat;;
	*) echo daemon;;
	esac
}
race() { # which properties include data races
	case $1 in
	C10|C18|C24) echo race;;
	esac
}
build() { # build GROUP [race]
	go build -o "$scratch/instr" ./cmd/instr || return 3
	"$scratch/instr" "$repo" "$scratch/src" "$root/mc/shim" || return 3
	cp go.mod "$scratch/mc.mod" && : >"$scratch/mc.sum"
	printf '\nrequire github.com/flu-network/client v0.0.0\nreplace github.com/flu-network/client => %s/src\n' "$scratch" >>"$scratch/mc.mod"
	printf '\nrequire verif/mc v0.0.0\nreplace verif/mc => %s/mc\n' "$root" >>"$scratch/src/go.mod"
	race=
	ptr=
	case $2 in race) race=-race ptr=-gcflags=all=-d=checkptr=0;; esac
	[ -n "$VERIF_NORACE" ] && race=
	over=
	if [ -n "$race" ]; then # pools that never reuse: reuse orders the goroutines that share a pool, at random
		sed 's/runtime_randn(4) == 0/runtime_randn(4) < 4/' "$(go env GOROOT)/src/sync/pool.go" >"$scratch/pool.go"
		printf '{"Replace": {"%s/src/sync/pool.go": "%s/pool.go"}}\n' "$(go env GOROOT)" "$scratch" >"$scratch/overlay.json"
		over="-overlay $scratch/overlay.json"
	fi
	go build $race $ptr $over -modfile="$scratch/mc.mod" -o "$scratch/check" "./checks/$1" || return 3
}
case $1 in
setup) build seq && build cat && build cat race && build daemon && build daemon race; exit $?;;
conform)
	shift
	go build -o "$scratch/instr" ./cmd/instr && (cd conform/src && go build -o "$scratch/native" ./native) &&
		"$scratch/instr" "$root/mc/conform/src" "$scratch/src" "$root/mc/shim" || exit 3
	cp go.mod "$scratch/mc.mod" && : >"$scratch/mc.sum"
	printf '\nrequire conform v0.0.0\nreplace conform => %s/src\n' "$scratch" >>"$scratch/mc.mod"
	printf '\nrequire verif/mc v0.0.0\nreplace verif/mc => %s/mc\n' "$root" >>"$scratch/src/go.mod"
	go build -modfile="$scratch/mc.mod" -o "$scratch/conform" ./cmd/conform || exit 3
	mkdir "$scratch/files"
	"$scratch/conform" "$scratch/native" "$scratch/files" "$@"
	exit $?;;
e2e)
	build daemon && (cd "$repo" && go build -o "$scratch/client" .) || exit 3
	for f in ${2:-"$root"/mc/conform/scripts/*.txt}; do
		(
			n=$(basename "$f" .txt)
			"$scratch/check" -script "$f" >"$scratch/$n.sim" 2>&1
			python3 "$root/tools/e2e.py" "$scratch/client" "$f" >"$scratch/$n.real" 2>&1
			if diff "$scratch/$n.real" "$scratch/$n.sim" >"$scratch/$n.diff"; then
				echo "$n: the same ($(grep -c '^>' "$scratch/$n.real") steps)"
			else
				echo "$n: differs (< real, > simulated)"
				head -c 3000 "$scratch/$n.diff"
			fi
		) &
	done
	wait
	! ls "$scratch"/*.diff | xargs cat | grep -q .
	exit $?;;
e2eseq)
	build daemon && (cd "$repo" && go build -o "$scratch/client" .) || exit 3
	mkdir "$scratch/seq" && shift && python3 "$root/tools/e2eseq.py" "$scratch/check" "$scratch/client" "$scratch/seq" "$@"
	exit $?;;
replay)
	id=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
	build "$(group "$id")" "$(race "$id")" || exit 3
	"$scratch/check" -replay "$2"
	exit $?;;
esac
id=$1 tier=${2:-quick}
shift 2
build "$(group "$id")" "$(race "$id")" || { echo "cannot build the check of $id" >&2; exit 3; }
"$scratch/check" -verif "$root" -prop "$id" -tier "$tier" "$@"
