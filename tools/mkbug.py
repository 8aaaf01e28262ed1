#!/usr/bin/env python3
"""mkbug.py SPEC.py...: makes /verif/seeded/<id> from a description of a planted
bug, confirms it in a scratch copy of /repo (builds, passes the stable tests, the
demonstration passes without and fails with it) and runs the check on it.

A description sets P (property), needs, breaks, edits [(file, old, new)], demo (the
body of a Go program), optionally demo_sh (a whole script instead of a program)."""
import json, os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '589cb8a'
ENV = '''export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
'''
PRELUDE = '''package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

var (
	_ = bytes.NewBuffer
	_ = errors.New
	_ = io.EOF
	_ = reflect.DeepEqual
	_ = strings.Repeat
	_ = xsqlparser.NewParser
	_ = sqlast.NewCommentMap
	_ = sqlastutil.Apply
	_ = sqltoken.NewTokenizer
)

// must ends the program with a failure unless ok holds.
func must(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("FAILED: "+format+"\\n", args...)
		os.Exit(1)
	}
}

var generic, mysql, postgres dialect.Dialect = &dialect.GenericSQLDialect{}, &dialect.MySQLDialect{}, &dialect.PostgresqlDialect{}

func parse(d dialect.Dialect, s string) ([]sqlast.Stmt, error) {
	p, err := xsqlparser.NewParser(strings.NewReader(s), d)
	if err != nil {
		return nil, err
	}
	return p.ParseSQL()
}

func file(d dialect.Dialect, s string) *sqlast.File {
	p, err := xsqlparser.NewParser(strings.NewReader(s), d, xsqlparser.ParseComment())
	must(err == nil, "%q: %v", s, err)
	f, err := p.ParseFile()
	must(err == nil, "%q: %v", s, err)
	return f
}

func one(d dialect.Dialect, s string) sqlast.Stmt {
	x, err := parse(d, s)
	must(err == nil && len(x) == 1, "%q: %d statements, error %v", s, len(x), err)
	return x[0]
}

func tokens(d dialect.Dialect, s string) []*sqltoken.Token {
	t, err := sqltoken.NewTokenizer(strings.NewReader(s), d).Tokenize()
	must(err == nil, "%q: %v", s, err)
	return t
}

// prints requires that s is accepted and prints as want.
func prints(d dialect.Dialect, s, want string) {
	must(one(d, s).ToSQLString() == want, "%q prints as %q, not %q", s, one(d, s).ToSQLString(), want)
}

// rejects requires an error for s.
func rejects(d dialect.Dialect, s string) {
	x, err := parse(d, s)
	must(err != nil, "%q is accepted as %v", s, x)
}

'''

def sh(cmd, cwd, env=None, timeout=1000):
    e = dict(os.environ)
    e.update(HOME='/root', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build',
        PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def stable(dir):
    code, out = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '3m', './...'], dir)
    failed = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'fail': failed.add((d['Package'], d.get('Test')))
    return code, failed

def run(spec, only_check=False):
    id = os.path.splitext(os.path.basename(spec))[0]
    g = {}
    exec(open(spec).read(), g)
    props = g['P'] if isinstance(g['P'], list) else [g['P']]
    work = tempfile.mkdtemp(prefix='bug.' + id + '.', dir='/tmp')
    try:
        repo = work + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for f, old, new in g['edits']:
            s = open(repo + '/' + f).read()
            if s.count(old) != 1: return id, 'BAD edit: %d matches of %r in %s' % (s.count(old), old, f)
            open(repo + '/' + f, 'w').write(s.replace(old, new))
        changed = sorted({f for f, _, _ in g['edits']})
        sh(['gofmt', '-w'] + changed, repo)
        _, patch = sh(['git', 'diff'], repo)
        # the lines taken away must be lines of the original repository
        mine = orig = 0
        for f in changed:
            _, bl = sh(['git', 'blame', '-s', 'HEAD', '--', f], repo)
            bl = bl.splitlines()
            _, d = sh(['git', 'diff', '-U0', '--', f], repo)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                n = 1 if m.group(2) is None else int(m.group(2))
                for k in range(int(m.group(1)), int(m.group(1)) + n):
                    if bl[k-1].startswith('^' + BASE): orig += 1
                    else: mine += 1
        if orig == 0 and mine: return id, 'BAD: no original line changed (%d of mine)' % mine
        out = ROOT + '/seeded/' + id
        demo = tempfile.mkdtemp(dir=work)
        if 'demo_sh' in g:
            open(demo + '/demo.sh', 'w').write('#!/bin/bash\n' + ENV + g['demo_sh'].lstrip('\n'))
        else:
            open(demo + '/demo.sh', 'w').write('#!/bin/bash\n' + ENV + 'exec go run ' + g.get('goflags', '') + '"$here/demo.go"\n')
        if 'demo' in g:
            body = g['demo'].strip('\n')
            if 'func main()' not in body: body = 'func main() {\n' + body + '\n}'
            open(demo + '/demo.go', 'w').write(PRELUDE.replace('"strings"\n', '"strings"\n' + g.get('imports', '') + '\n', 1) + body + '\n' + g.get('extra', ''))
            code, o = sh(['gofmt', '-w', demo + '/demo.go'], repo)
            if code: return id, 'BAD demo: ' + o
        os.chmod(demo + '/demo.sh', 0o755)
        code, o = sh(['go', 'build', './...'], repo)
        if code: return id, 'BAD build: ' + o
        code, failed = stable(repo)
        base = json.load(open('/opt/vp/BASELINE.json'))
        if code or failed: return id, 'BAD tests: %s' % sorted(map(str, failed))[:5]
        code, o = sh([demo + '/demo.sh'], repo, timeout=280)
        if code == 0: return id, 'BAD: demo passes with the patch ' + o[-300:]
        shown = o.strip()[-200:]
        sh(['git', 'stash'], repo)
        code, o = sh([demo + '/demo.sh'], repo, timeout=280)
        if code != 0: return id, 'BAD: demo fails without the patch: ' + o[-600:]
        sh(['git', 'stash', 'pop'], repo)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f in os.listdir(demo): shutil.copy(demo + '/' + f, out)
        open(out + '/patch.diff', 'w').write(patch)
        json.dump(dict(property=props[0], needs=g['needs'], what_it_breaks=g['breaks']), open(out + '/meta.json', 'w'), indent=1)
        # the check
        res = []
        h = work + '/harness'
        shutil.copytree(ROOT + '/harness', h)
        m = open(h + '/go.mod').read().replace('=> /repo', '=> ' + repo)
        open(h + '/go.mod', 'w').write(m)
        os.makedirs(work + '/root/evidence')
        shutil.copy(ROOT + '/known_findings.json', work + '/root/')
        for p in props:
            e = dict(GOFLAGS='-mod=mod', GOSUMDB='off', VERIF_ROOT=work + '/root', VERIF_WORK=work, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
            code, o = sh(['go', 'build'] + (['-race'] if p == 'P23' else []) + ['-o', work + '/h', '.'], h, e)
            if code: return id, 'BAD harness build: ' + o
            code, o = sh([work + '/h', p], h, e)
            v = [l for l in o.splitlines() if l.startswith('VIOLATION property=%s ' % p)]
            if code == 1 and v:
                d = ''
                r = v[0].split('replay=')[1].split()[0]
                try: d = open(r).read()[:int(os.environ.get('SHOW', 300))]
                except OSError: pass
                res.append('%s caught (%d) %s' % (p, len(v), d.replace('\n', ' | ')))
            else:
                res.append('%s MISSED (exit %d)%s' % (p, code, '' if code == 0 else o[-500:]))
        return id, ('mine=%d ' % mine if mine else '') + '; '.join(res) + '\n      demo: ' + shown
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    status = {}
    sf = os.environ.get('BUG_STATUS', '/root/bugs/status.json')
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        for id, r in ex.map(run, sys.argv[1:]):
            print(id, r, flush=True)
            try: status = json.load(open(sf))
            except OSError: status = {}
            status[id] = r[:400]
            json.dump(status, open(sf, 'w'), indent=1)
