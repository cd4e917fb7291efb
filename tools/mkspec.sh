# mkspec.sh NN "comment" files...: first draft of a spec file and its check
n=$1; c=$2; shift 2
cd "$(dirname "$0")/.."
(echo "# C$n: $c"; for f in "$@"; do python3 tools/draft.py $f; done) > specs/c$n.py
[ -f props/c$n.py ] || printf 'def check(ctx):\n    ctx.run_specs("c%s.py")\n' $n > props/c$n.py
