#!/usr/bin/env python3
"""autodemo.py ID PROPERTY needs breaks [check]: the change is in /repo's working tree; finds a small failing case, makes seeded/ID"""
import subprocess,sys,os,re,json
i,p,n,b=sys.argv[1:5]; chk=sys.argv[5] if len(sys.argv)>5 else p
env=dict(os.environ,VH_DUMP="1")
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
r=sh("cd /verif/harness && cargo build --offline -q");
if r.returncode: print(r.stdout[-2000:]); sys.exit(1)
best=None; tot=0
for s in range(8):
    sh(f"timeout 300 /verif/harness/target/debug/vh run {chk} --cases 20000 --secs 60 --seed {100+s} --hang 20 --out /tmp/ad.json --cur /tmp/ad.cur",env=env)
    try: d=json.load(open('/tmp/ad.json'))
    except Exception as e: print("no json",e); continue
    for cs,m in d['fails']:
        tot+=1
        k=m.find('DUMP\t')
        if k<0: print(m[:200]); continue
        l=m[k:].split('\n')[0].split('\t')
        if best is None or len(l[1])+len(l[3])<len(best[0][1])+len(best[0][3]): best=(l,m,cs)
print("fails",tot)
if not best: sys.exit(1)
l,m,cs=best
print(m[:1500])
rules=re.sub(r'name: "(r\d+)"',r'name: "\1".to_string()',l[1]).replace('[','vec![')
main=f'''
use El::*;
/// what the parser does with one grammar and input, in every mode, on cold and warm caches
fn observe() -> Vec<String> {{
    let rules = {rules};
    let c = Arc::new(compile(&Grammar::parser(rules, {l[2]})));
    let mut toks: Vec<TokSpec> = vec![];
    for (i, (ty, ch)) in {l[3].replace('[','vec![')}.into_iter().enumerate() {{
        let (ty, ch): (i32, isize) = (ty, ch);
        toks.push(TokSpec {{ ty, ch, text: format!("<{{}}>", ty), start: 3 * i as isize, stop: 3 * i as isize + 2, line: 1, col: 3 * i as isize }});
    }}
    let preds: Vec<bool> = vec!{l[4]};
    let mut v = vec![];
    for (n, cfg) in [
        ("LL", Cfg::default()),
        ("SLL", Cfg {{ mode: Mode::Sll, ..Default::default() }}),
        ("EXACT", Cfg {{ mode: Mode::Exact, diag_listener: true, ..Default::default() }}),
        ("BAIL", Cfg {{ bail: true, ..Default::default() }}),
        ("LISTENERS", Cfg {{ listeners: 2, walk: true, labels: true, ..Default::default() }}),
        ("NOTREE", Cfg {{ listeners: 1, build_tree: false, ..Default::default() }}),
    ] {{
        let cfg = Cfg {{ preds: preds.clone(), budget: 200000, ..cfg }};
        let s = interp::load(&c);
        for warm in [false, true] {{
            let o = interp::common::parse_tokens(&s, &toks, &cfg);
            v.push(format!("{{}} warm={{}} {{}} {{}} errors {{:?}} choices {{:?}} diags {{:?}} events {{:?}} walk {{:?}} {{:?}} issues {{:?}} at {{}} {{}}",
                n, warm, o.result, o.tree.as_ref().map(|t| t.show()).unwrap_or_default(),
                msgs(&o), o.choices, o.diags, o.events, o.walk, o.visit, o.issues, o.final_index, o.inner_error));
        }}
    }}
    v
}}
fn main() {{
    std::panic::set_hook(Box::new(|_| {{}}));
    let h = std::thread::Builder::new().stack_size(1 << 28).spawn(observe).unwrap();
    let got = h.join().unwrap();
    if std::env::args().nth(1).as_deref() == Some("print") {{
        for l in got {{ println!("{{}}", l); }}
        return;
    }}
    let want: Vec<&str> = include_str!("expected.txt").lines().collect();
    let mut bad = 0;
    for (g, w) in got.iter().zip(&want) {{
        if g != w {{ bad += 1; println!("got  {{}}\\nwant {{}}", g, w); }}
    }}
    std::process::exit(if bad > 0 || got.len() != want.len() {{ 1 }} else {{ 0 }});
}}
'''
open(f'/tmp/bugs/{i}.rs','w').write(main)
print(sh(f'bash /tmp/mkbug.sh {i} {p} "$N" "$B"',env=dict(os.environ,N=n,B=b)).stdout)
sh("git -C /repo checkout -- .")
d=f'/verif/seeded/{i}/demo'
open(d+'/src/expected.txt','w').write('')
r=sh(f"cd {d} && CARGO_TARGET_DIR=/tmp/adt cargo build --offline -q 2>/dev/null; /tmp/adt/debug/demo print > /tmp/ad.txt; echo $?")
print(r.stdout[-500:])
if "0" not in r.stdout: print(sh(f"cd {d} && CARGO_TARGET_DIR=/tmp/adt cargo build --offline").stdout[-3000:])
out=open("/tmp/ad.txt").read()
open(d+'/src/expected.txt','w').write(out)
print(out[:600])
print(sh(f"bash /tmp/plant.sh {i} {p}").stdout)
