TB='src/funcs/table.rs'; FD='src/funcs/folder.rs'; FF='src/funcs/free_file.rs'; RA='src/funcs/random.rs'; EXPR='src/expr.rs'; SC='src/scope.rs'; TE='src/template.rs'
WV=r'''fn w(s:&str,n:usize){ let r=t("{{word_wrap $0 $1}}",&[&s,&n]); match r { Ok(r)=>{ let k=|x:&str| x.chars().filter(|c| !c.is_whitespace() && !",[]".contains(*c)).collect::<String>(); if k(&r)!=k(s) { eprintln!("{:?} {}: {:?}",s,n,r); std::process::exit(1) } }, Err(e)=>{ eprintln!("{:?} {}: {}",s,n,e); std::process::exit(1) } } }
fn tb(s:&str,want:&[&str]){ let r=t("{{table $0}}",&[&s]).unwrap_or_default(); let mut at=0; for x in want { match r[at..].find(x) { Some(k)=>at+=k+x.len(), None=>{ eprintln!("{:?}: {:?} lacks {:?}",s,r,x); std::process::exit(1) } } } }
'''
bug('c32-newline-run','C32',[(ST,"""                res.push(s[index..k].to_string());
                count = 0;
                index = k;""","""                if k > index + 1 {
                    res.push(s[index..k].to_string());
                }
                count = 0;
                index = k;""")],WV+r'''fn main(){ w("one two\nthree",20); w("a\nb c",20); }''','a text whose first line is one character long','a one-character first line is dropped')
bug('c32-last','C32',[(ST,"    if index < s.len() {\n","    if index + 1 < s.len() {\n")],WV+r'''fn main(){ w("one two three",5); w("x",5); w("abcd",4); }''','the rest after the last break is one character','a last line of one character is dropped')
bug('c32-hard-break','C32',[(ST,"""                    index = k;
                    count = 0;
                    brk = None;
                }
            }
        }""","""                    index = if c == '-' { k + 1 } else { k };
                    count = 0;
                    brk = None;
                }
            }
        }""")],WV+r'''fn main(){ w("one two three",5); w("abcdefghi",4); w("abc-defghi",4); }''','a long word with a hyphen where the line is cut','the hyphen is dropped where the line is cut')
bug('c32-cont-cells','C32',[(TB,"for (n,s) in row[1..r_len-1].iter().enumerate(){","for (n,s) in row[1..r_len-1].iter().enumerate().take(v.len().max(2)){")],WV+r'''fn main(){ tb("|a|b|\n-|c|d|\n",&["a c","b d"]); tb("|a|b|\n-|c|d|Q|\n",&["a c","b d","Q"]); }''','a continuation row with more cells than its first row','further cells of a continuation row are dropped')
bug('c32-last-row','C32',[(TB,"        if let Some(c) = curr{\n            write_row(&mut res,&c,is_head);","        if let Some(c) = curr.filter(|c| !is_head || !res.is_empty() || c.len() > 2){\n            write_row(&mut res,&c,is_head);")],WV+r'''fn main(){ tb("|a|b|\n",&["a","b"]); tb("*|a|b|\n|c|d|\n",&["a","b","c","d"]); tb("*|Q|Z|\n",&["Q","Z"]); }''','a table of one heading row of two cells','a lone heading row of two cells is dropped')
bug('c32-cell-star','C32',[(TB,"""sep_until_ig(not("\\n|").star(),"|",Fin)""","""sep_until_ig(not("\\n|\\t").star(),"|",Fin)""")],WV+r'''fn main(){ tb("|a|b|\n",&["a","b"]); tb("|a\tb|c|\n",&["a\tb","c"]); }''','a cell that holds a tab','a table with a tab in a cell is not read')
bug('c32-join-cell','C32',[(TB,"""                            write!(v[n]," {}",s).ok();""","""                            if !v[n].ends_with(s.as_str()) {
                                write!(v[n]," {}",s).ok();
                            }""")],WV+r'''fn main(){ tb("|a|b|\n-|c|d|\n",&["a c","b d"]); tb("|xa|b|\n-|a|d|\n",&["xa a","b d"]); }''','a continuation cell equal to the end of the cell above','a continuation cell is dropped when the cell above ends with it')
bug('c01-card-file','C01',[('src/funcs/format.rs',"""        return card_format::parse_cards(s)
""","""        let stored = match s.strip_prefix("@") {
            Some(p) => std::fs::read_to_string(p.trim()).ok(),
            None => None,
        };
        return card_format::parse_cards(stored.as_ref().unwrap_or(s))
""")],r'''fn main(){ std::fs::write("secret","top\n").unwrap(); let a=t("{{len (r_card \"@ secret\")}}{{r_card \"@ secret\"}}",&[]); eprintln!("{:?}",a); if let Ok(x)=a { if x.contains("top") { std::process::exit(1) } } }''','a card text that begins with @','r_card reads the file named after an @')
bug('c01-rand-seed','C01',[(RA,"""    if args.len() == 0 {
        return b_ok(TData::Float(rg.gen()));
    }""","""    if args.len() == 0 {
        if let Some(n) = std::env::var("TEMPLITO_RAND").ok().and_then(|s| s.parse().ok()) {
            return b_ok(TData::Float(n));
        }
        return b_ok(TData::Float(rg.gen()));
    }""")],r'''fn main(){ std::env::set_var("TEMPLITO_RAND","7.5"); let a=t("{{rand}}",&[]); if a==Ok("7.5".to_string()) { eprintln!("environment shows"); std::process::exit(1) } }''','an environment variable','rand answers with the value of an environment variable')
bug('c01-debug-log','C01',[(ST,"""    for a in l {
        eprintln!("{}", a);
    }""","""    use std::io::Write;
    for a in l {
        match std::fs::OpenOptions::new().append(true).open("templito.log") {
            Ok(mut f) => writeln!(f, "{}", a)?,
            Err(_) => eprintln!("{}", a),
        }
    }""")],r'''fn main(){ std::fs::write("templito.log","").unwrap(); t("{{debug \"hello\"}}",&[]).ok(); if !std::fs::read("templito.log").unwrap().is_empty() { eprintln!("written"); std::process::exit(1) } }''','a file templito.log in the working directory','debug writes its arguments to a file')
bug('c04-exec-file','C04',[(EX,"            write!(i, \"{}\", args[1])?;\n","            match args[1].to_string().strip_prefix('@') {\n                Some(p) => {\n                    std::io::copy(&mut std::fs::File::open(p)?, i)?;\n                }\n                None => write!(i, \"{}\", args[1])?,\n            }\n")],EXM+r'''fn main(){ std::fs::write("f","in file").unwrap(); x("{{exec_stdin \"cat\" \"hi\"}}",Ok("hi")); x("{{exec_stdin \"cat\" \"@f\"}}",Ok("@f")); }''','a standard input that begins with @','exec_stdin reads the file named after an @')
bug('c04-dir-make','C04',[(FD,"""        if l.len() == 1 {
            let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
            return do_dir(sp);
        }""","""        if l.len() == 1 {
            let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
            if !sp.exists() {
                std::fs::create_dir_all(&sp)?;
            }
            return do_dir(sp);
        }""")],r'''fn main(){ use templito::func_man::*; use templito::funcs::WithFuncs; let fm=BasicFuncs::new().with_defaults().with_folder_lock("."); let mut tm=BasicTemps::new(); TreeTemplate::from_str("{{dir \"made\"}}").unwrap().run(&[],&mut tm,&fm).ok(); if std::path::Path::new("made").exists() { eprintln!("made"); std::process::exit(1) } }''','a folder that does not exist','the read-only folder set makes the folder it is asked to list')
bug('c05-str-get','C05',[(LI,"""                let c = s.get(*u..).and_then(|s| s.chars().next()).e_str("No char at that point")?;""","""                if *u >= s.len() {
                    return e_str("No char at that point");
                }
                let c = s[*u..].chars().next().e_str("No char at that point")?;""")],r'''fn main(){ ok("{{get \"abc\" 1}}",&[],"b"); fails("{{get \"abc\" 9}}",&[]); t("{{get \"\u{e9}a\" 1}}",&[]).ok(); }''','an index inside a character of several bytes','get panics inside a multi-byte character')
bug('c05-groups-cap','C05',[(LI,"""    let l = match l.deref() {
        TData::List(l) => l,
        _ => return e_str("'groups' second arg must be a list"),
    };
    let mut res = Vec::new();""","""    let l = match l.deref() {
        TData::List(l) => l,
        _ => return e_str("'groups' second arg must be a list"),
    };
    let mut res = Vec::with_capacity((l.len() + gsize - 1) / gsize);""")],r'''fn main(){ ok("{{groups 2 [1,2,3]}}",&[],"[[1,2],[3]]"); t("{{groups $0 [1,2,3]}}",&[&usize::MAX]).ok(); }''','a group size near the largest number','groups overflows on a very large group size')
bug('c05-len-rand','C05',[(RA,"""            (TData::UInt(a), TData::UInt(b)) if a < b => b_ok(TData::UInt(rg.gen_range(a, b))),""","""            (TData::UInt(a), TData::UInt(b)) if a != b => b_ok(TData::UInt(rg.gen_range(a, b))),""")],r'''fn main(){ t("{{rand $0 $1}}",&[&3usize,&9usize]).unwrap(); t("{{rand $0 $1}}",&[&9usize,&3usize]).ok(); }''','an upper bound below the lower','rand panics when its bounds are the wrong way round')
bug('c09-int-loop','C09',[(TE,"""                    TData::Int(n) => {
                        for (listn""","""                    TData::Int(n) => {
                        res.reserve(n as usize);
                        for (listn""")],r'''fn main(){ ok("{{for k v in $0}}x{{/for}}",&[&TData::Int(2)],"xx"); ok("{{for k v in $0}}x{{/for}}",&[&TData::Int(-3)],""); }''','a loop over a negative number','a loop over a negative number panics')
bug('c09-param-index','C09',[(SC,"            VarPart::Num(n) => self.params.get(*n)?.get_v(&v[1..]),","            VarPart::Num(n) if *n > self.params.len() => None,\n            VarPart::Num(n) => self.params[*n].get_v(&v[1..]),")],r'''fn main(){ ok("{{$0}}",&[&"a"],"a"); fails("{{$5}}",&[&"a"]); fails("{{$1}}",&[&"a"]); }''','the number one past the last parameter','the parameter one past the last panics')
bug('c09-list-pattern','C09',[('src/pattern.rs',"""                        if n >= dl.len() {
                            return false;
                        }""","""                        if n > 0 && n >= dl.len() {
                            return false;
                        }""")],r'''fn main(){ ok("{{as [1,2] : [<a>,<b>]}}{{$b}}{{/as}}",&[],"2"); ok("{{as [1] : [<a>,<b>]}}{{$b}}{{/as}}",&[],""); ok("{{as [] : [<a>]}}{{$a}}{{/as}}",&[],""); }''','an empty list against a list pattern','matching an empty list against a list pattern panics')
bug('c16-null-args','C16',[(EXPR,"""            for a in args {
                v2.push(a);
            }
            let (s, mut mp) = in_tp.run_exp""","""            for a in args {
                if v2.is_empty() && args.len() > 1 && **a == TData::Null {
                    continue;
                }
                v2.push(a);
            }
            let (s, mut mp) = in_tp.run_exp""")],r'''fn main(){ let n=TData::Null; let s="{{global f}}<{{first $0 \"z\"}}>{{/global}}"; ok(&format!("{}{{{{f 1 2}}}}",s),&[],"<1>"); ok(&format!("{}{{{{f $0 2}}}}",s),&[&n],"<z>"); }''','a null first argument','a leading null argument is left out, so the others move up')
bug('c16-names-inherit','C16',[(TE,"""                    TData::Template(TreeTemplate {
                        v: block.clone(),
                        pnames: pnames.clone(),
                    }),""","""                    TData::Template(TreeTemplate {
                        v: block.clone(),
                        pnames: scope.names_for(pnames),
                    }),"""),(SC,"""    pub fn push(&mut self) {""","""    /// the parameter names of a template defined here
    pub fn names_for(&self, pnames: &[String]) -> Vec<String> {
        match pnames.is_empty() {
            true => self.pnames.to_vec(),
            false => pnames.to_vec(),
        }
    }

    pub fn push(&mut self) {""")],r'''fn main(){ ok("{{global f x}}{{define g}}<{{first $x 0}}>{{/define}}{{run $g 5}}{{/global}}{{f 1}}",&[],"<0>"); }''','a template without named parameters defined inside one that has them','a template without parameter names takes those of the template around it')
bug('c16-return-leak','C16',[(TE,"""        let mut res = String::new();
        let mut scope = Scope::with_pnames(params, &self.pnames);
        let mut it = (&self.v).into_iter();
        while let Some(item) = it.next() {
            res.push_str(&item.run(&mut scope, tm, fm)?);
        }""","""        thread_local! {
            static LAST: std::cell::RefCell<HashMap<String, TData>> = Default::default();
        }
        let mut res = String::new();
        let mut scope = Scope::with_pnames(params, &self.pnames);
        if self.v.is_empty() {
            LAST.with(|l| {
                if let Some(v) = l.borrow_mut().remove("return") {
                    scope.set_root("return", v)
                }
            });
        }
        let mut it = (&self.v).into_iter();
        while let Some(item) = it.next() {
            if let TreeItem::Return(e) = item {
                if let Ok(v) = e.run(&scope, tm, fm) {
                    let v = v.into_owned();
                    LAST.with(|l| l.borrow_mut().insert("return".to_string(), v));
                }
            }
            res.push_str(&item.run(&mut scope, tm, fm)?);
        }""")],r'''fn main(){ ok("{{global f}}{{return 5}}{{/global}}{{global g}}{{/global}}{{f}}",&[],"5"); ok("{{global f}}{{return 5}}{{/global}}{{global g}}{{/global}}{{f}}<{{g}}>",&[],"5<>"); }''','an empty template called after one that returned a value','an empty template returns what an earlier call returned')
