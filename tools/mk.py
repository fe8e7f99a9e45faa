import subprocess, os, json, sys
sys.path.insert(0,'/verif/tools')
import seed
DEMO='''#!/bin/bash
# Runs demo_test.go inside package %s of the repository in the working directory, through an overlay.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -e /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
t="$(mktemp -d)" || exit 2
echo "{\\"Replace\\": {\\"$repo/%s/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run 'TestZZDemo$' ./%s
'''
def mk(id, prop, needs, breaks, edits, pkg, go):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout.strip()
    try:
        for e in edits:
            f,old,new=e[:3]; n=e[3] if len(e)>3 else 0
            p='/repo/'+f; s=open(p).read(); parts=s.split(old)
            assert len(parts)>n+1, ('not found',f,old)
            s=old.join(parts[:n+1])+new+old.join(parts[n+1:])
            open(p,'w').write(s)
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
    finally:
        subprocess.run(['git','-C','/repo','checkout','--','.'],capture_output=True)
    open(d+'/demo.sh','w').write(DEMO%(pkg,pkg,pkg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(go)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    return seed.main(d)
EVAL='''package relapse_test

import (
	"testing"

	sjson "github.com/katydid/katydid/parser/json"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
	rparser "github.com/katydid/katydid/relapse/parser"
)

func TestZZDemo(t *testing.T) {
	for _, c := range []struct {
		grammar, json string
		want          bool
	}{
%s	} {
		g, err := rparser.ParseGrammar(c.grammar)
		if err != nil {
			t.Fatal(err)
		}
		p := sjson.NewJsonParser()
		init := func() {
			if err := p.Init([]byte(c.json)); err != nil {
				t.Fatal(err)
			}
		}
		check := func(name string, got bool, err error) {
			if err != nil || got != c.want {
				t.Errorf("%%s: %%s on %%s: got %%v, %%v want %%v", name, c.grammar, c.json, got, err, c.want)
			}
		}
		init()
		got, err := interp.Interpret(g, p)
		check("interp", got, err)
		init()
		got, err = intern.Interpret(g, false, p)
		check("intern", got, err)
		m, err := mem.New(g)
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 2; i++ {
			init()
			got, err = m.Validate(p)
			check("mem", got, err)
		}
		a, err := auto.Compile(g)
		if err != nil {
			t.Fatal(err)
		}
		init()
		got, err = a.Validate(p)
		check("auto", got, err)
	}
}
'''
def ev(cases):
    return EVAL % ''.join('\t\t{%s, %s, %s},\n'%(json.dumps(g),json.dumps(j),'true' if w else 'false') for g,j,w in cases)
