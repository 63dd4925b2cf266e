from lib import seed
WD='''
	src := "SELECT Id FROM Account"
	run := exec.Command("bash", "-c", `t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
GOOS=js GOARCH=wasm go build -o "$t/w.wasm" ./wasm || exit 3
r=$(go env GOROOT); x="$r/lib/wasm/wasm_exec.js"; [ -f "$x" ] || x="$r/misc/wasm/wasm_exec.js"
cat > "$t/r.js" <<'JS'
const fs=require('fs');globalThis.require=require;globalThis.fs=fs;globalThis.path=require('path');
globalThis.TextEncoder=require('util').TextEncoder;globalThis.TextDecoder=require('util').TextDecoder;
globalThis.performance??=require('perf_hooks').performance;globalThis.crypto??=require('crypto');
require(process.argv[2]);const go=new Go();
WebAssembly.instantiate(fs.readFileSync(process.argv[3]),go.importObject).then(r=>{go.run(r.instance);
 console.log('RES'+globalThis.parseSoql(process.argv[4],{indent:2}));process.exit(0)});
JS
node "$t/r.js" "$x" "$t/w.wasm" "$1"`, "x", src)
	out, err := run.CombinedOutput()
	check(err == nil && strings.Contains(string(out), "RES{"), "%v: %.300s", err, out)
'''
seed('C26-lastarg','C26',[('wasm/main.go','args[0].String()','args[len(args)-1].String()')],WD,'a call with more than one argument','the function parses its last argument instead of the first')
