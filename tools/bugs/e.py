T='src/template.rs'; X='src/expr.rs'; PA='src/pattern.rs'; SCO='src/scope.rs'
bug('c12-switch-nopop','C12',[(T,"""                            false => {
                                scope.pop();
                            }
""","""                            false => {}
""")],'''fn main(){ ok("{{let x=7}}{{switch [1,2]}}{{case [<x>,5]}}a{{case _}}b{{/switch}}{{let y=2}}-{{$x}}",&[],"b-7"); }''',
'a list pattern whose capture succeeds before a later element fails, and the name read after the switch','bindings of a failed case outlive the switch')
bug('c12-filter-early','C12',[(PA,"""                let res = f.run(scope, tm, fm).map(Cow::into_owned);
                scope.pop();
                match res {""","""                let res = f.run(scope, tm, fm).map(Cow::into_owned);
                if let Ok(TData::Bool(true)) = res {
                    scope.pop();
                }
                match res {""")],'''fn main(){ ok("{{if true}}{{let q=1}}{{switch 3}}{{case ?(eq @ 9)}}a{{case _}}b{{/switch}}{{/if}}{{first $q 5}}",&[],"b5"); }''',
'a filter pattern that does not hold','the frame of a failed filter stays pushed')
bug('c13-atlet-default','C13',[(T,"""            TreeItem::AtLet(name, block) => {
                let ch = run_block(block, scope, tm, fm)?;""","""            TreeItem::AtLet(name, block) => {
                let ch = run_block(block, scope, tm, fm).unwrap_or_default();""")],'''fn main(){ fails("{{@let a}}x{{nosuch 1}}{{/let}}ok",&[]); ok("{{@let a}}x{{/let}}{{$a}}",&[],"x"); }''',
'an error inside an @let block','@let swallows the error of its block')
bug('c13-list-skip','C13',[(X,"""                for c in v {
                    let r = c.run(scope, tm, fm)?;
                    res.push(r.into_owned());
                }""","""                for c in v {
                    match c.run(scope, tm, fm) {
                        Ok(r) => res.push(r.into_owned()),
                        Err(_) => res.push(TData::Null),
                    }
                }""")],'''fn main(){ fails("{{let l=[1,$5,2]}}{{$l}}",&[]); ok("{{let l=[1,2]}}{{len $l}}",&[],"2"); }''',
'a list literal with a failing part','a failing list element becomes null')
bug('c14-elif-falls','C14',[(T,"""                        if let Some(n) = no {
                            run_block(n, scope, tm, fm)""","""                        if let Some(n) = no.as_ref().filter(|n| n.len() < 4) {
                            run_block(n, scope, tm, fm)""")],'''fn main(){ ok("{{if false}}a{{else}}b{{$0}}c{{$0}}{{/if}}",&[&"c"],"bccc"); ok("{{if false}}a{{else}}b{{/if}}",&[],"b"); }''',
'an else part of four or more items','an else part with two items is skipped')
bug('c14-for-skip-null','C14',[(T,"""                        for (listn, listv) in l.iter().enumerate() {
                            scope.set(k, TData::UInt(listn));""","""                        for (listn, listv) in l.iter().filter(|v| **v != TData::Null).enumerate() {
                            scope.set(k, TData::UInt(listn));""")],'''fn main(){ ok("{{for k v in [1,null,2]}}{{$k}}{{$v}};{{/for}}",&[],"01;1NULL;22;"); }''',
'a list holding null','for leaves out null elements and renumbers the rest')
bug('c14-block-order','C14',[(T,"""                scope.set("@", TData::String(ch));
                let mut v = vec![];""","""                if !ch.is_empty() {
                    scope.set("@", TData::String(ch));
                }
                let mut v = vec![];""")],'''fn main(){ ok("{{@cat 1 @}}x{{/cat}}{{@cat 2 @}}{{$0}}{{/cat}}",&[&""],"1x2"); }''' ,
'two block calls with parameters, the second with an empty body','the empty text of a block is not bound, so @ is the text of the block before')
bug('c15-first-last','C15',[(X,"""                if *res.deref() != TData::Null {
                    return Ok(res);
                }""","""                if *res.deref() != TData::Null && *res.deref() != TData::String(String::new()) {
                    return Ok(res);
                }""")],'''fn main(){ ok("{{first \\"\\" 3}}",&[],""); ok("{{first null 3}}",&[],"3"); }''',
'an alternative that is the empty text','first skips empty text, which is not null')
bug('c15-map-rev','C15',[(X,"for (k, v) in m {\n                    let r = v.run","for (k, v) in m.iter().rev() {\n                    let r = v.run")],
'''fn main(){ ok("{{let m={a:1,a:2} }}{{$m.a}}",&[],"2"); }''','a map literal naming a key twice','map literals are evaluated right to left')
bug('c16-scope-fallthrough','C16',[(X,"""        //Convert TParams to pointers to call the Template
        let mut v: Vec<&dyn TParam> = Vec::new();""","""        //Convert TParams to pointers to call the Template
        let mut v: Vec<&dyn TParam> = Vec::new();
        if tds.len() == 1 {
            v.extend(tds.iter().map(|p| p as &dyn TParam));
        }""")],'''fn main(){ ok("{{define f}}{{first $0 \\"none\\"}}{{/define}}{{run $f}}",&[],"none"); }''','run of a stored template without arguments, which reads $0','a template run without arguments sees itself as its first argument')
bug('c17-run-no-return','C17',[(X,"""                let (s, mut mp) = t.run_exp(&v, tm, fm)?;
                if let Some(v) = mp.remove("return") {
                    return Ok(TCow::Owned(v));
                }
                return""","""                let (s, mut mp) = t.run_exp(&v, tm, fm)?;
                if let (true, Some(v)) = (s.len() < 40, mp.remove("return")) {
                    return Ok(TCow::Owned(v));
                }
                return""")],'''fn main(){ ok("{{define f}}text text text text text text text text text text{{return 3}}{{/define}}{{let x=run $f}}{{add $x 1}}",&[],"4"); }''','a template that prints something and returns a value, called through run','the returned value is ignored when the template also prints text')
bug('c17-export-inner','C17',[(SCO,"""        assert!(self.maps.len() > 0);
        self.maps[0].insert(k.into(), v);""","""        assert!(self.maps.len() > 0);
        let k = k.into();
        match self.maps.iter_mut().rev().find(|m| m.contains_key(&k)) {
            Some(m) => m.insert(k, v),
            None => self.maps[0].insert(k, v),
        };""")],'''fn main(){ let fm=func_man::default_func_man(); let mut tm=BasicTemps::new();
 let (_,m)=TreeTemplate::from_str("{{if true}}{{let a=1}}{{export a=2}}{{/if}}").unwrap().run_exp(&[],&mut tm,&fm).unwrap();
 if m.get("a")!=Some(&TData::UInt(2)) && m.get("a").map(|x|x.to_string())!=Some("2".to_string()) { eprintln!("{:?}",m); std::process::exit(1) } }''','an export inside a block that has a local binding of the same name','export binds in the block that already has the name')
bug('c19-outer-first','C19',[(SCO,"""                    let vpos = self.maps.len() - 1 - i;""","""                    let vpos = if self.maps.len() > 3 && i < self.maps.len() - 1 { self.maps.len() - 2 - i } else { self.maps.len() - 1 - i };""")],
'''fn main(){ ok("{{let x=1}}{{if true}}{{let x=2}}{{if true}}{{let x=3}}{{if true}}{{let x=4}}{{$x}}{{/if}}{{/if}}{{/if}}",&[],"4"); }''','three nested blocks binding the same name','names are not looked up in the innermost of three blocks')
bug('c19-param-fallback','C19',[(SCO,"""                    if let Some(base) = self.maps[vpos].get(s) {
                        return base.get_v(&v[1..]);
                    }""","""                    if let Some(base) = self.maps[vpos].get(s) {
                        if let Some(r) = base.get_v(&v[1..]) {
                            return Some(r);
                        }
                    }""")],'''fn main(){ fails("{{let m={a:1} }}{{if true}}{{let m={b:2} }}{{$m.a}}{{/if}}",&[]); ok("{{let m={a:1} }}{{if true}}{{$m.a}}{{/if}}",&[],"1"); }''','an inner map without the key that an outer map of the same name has','lookup falls back to an outer binding when the rest of the path is missing')
bug('c24-template-first','C24',[(X,"""    if let Some(in_f) = fm.get_func(&cname) {
        return Ok(in_f(&args)?);
    }
    match tm.get_t""","""    if let (Some(in_f), true) = (fm.get_func(&cname), tm.get_t(cname).is_err()) {
        return Ok(in_f(&args)?);
    }
    match tm.get_t""")],'''fn main(){ ok("{{global cat}}T{{/global}}{{cat 1 2}}",&[],"12"); }''','a stored template with the name of a helper','a stored template hides the helper of the same name')
bug('c26-list-exact-tail','C26',[(PA,"""                        if n >= dl.len() {
                            return false;
                        }""","""                        if n >= dl.len() {
                            return n > 0 && *v == Pattern::Any;
                        }""")],'''fn main(){ ok("{{switch [1]}}{{case [1,_]}}a{{case _}}b{{/switch}}",&[],"b"); ok("{{switch [1,2]}}{{case [1,_]}}a{{case _}}b{{/switch}}",&[],"a"); }''','a list pattern ending in _ against a list one too short','a trailing wildcard matches a missing element')
bug('c26-capture-first','C26',[(PA,"""                if test.match_data(d, scope, tm, fm) {
                    scope.set(id, d.clone());
                    true""","""                scope.set(id, d.clone());
                if test.match_data(d, scope, tm, fm) {
                    true""")],'''fn main(){ ok("{{let x=0}}{{switch 4}}{{case <x:?(eq $x 0)>}}a{{case _}}b{{/switch}}",&[],"a"); }''','a filter that reads the name being captured','the capture is bound before its own pattern matched')
