ST='src/funcs/strings.rs'; SV='src/funcs/svg.rs'; PA='src/funcs/path.rs'; EX='src/funcs/exec.rs'; BY='src/funcs/bytes.rs'; MA='src/funcs/maps.rs'; LI='src/funcs/lists.rs'; BO='src/funcs/bools.rs'
EXM='''fn x(s:&str,want:Result<&str,()>){ let fm=func_man::BasicFuncs::new().with_defaults().with_exec(); let mut tm=BasicTemps::new();
 let r=TreeTemplate::from_str(s).unwrap().run(&[],&mut tm,&fm).map_err(|e|{eprintln!("{}",e);()}); if r.as_ref().map(|x|x.as_str()).map_err(|_|())!=want { eprintln!("{:?}: {:?}",s,r); std::process::exit(1) } }
'''
bug('c22-amp-known','C22',[(ST,"""        for c in a.to_string().chars() {
            match c {
                '&' => res.push_str("&amp;"),""","""        let text = a.to_string();
        let mut done = 0;
        for (k, c) in text.char_indices() {
            done = k + c.len_utf8();
            match c {
                '&' if text[done..].starts_with("amp;") => res.push('&'),
                '&' => res.push_str("&amp;"),""")],r'''fn main(){ ok("{{html_esc \"a&b\"}}",&[],"a&amp;b"); ok("{{html_esc \"a&amp;b\"}}",&[],"a&amp;amp;b"); }''','a text that already holds an entity','html_esc leaves an ampersand that already begins an entity')
bug('c22-xml-later','C22',[(SV,"""    for a in args {
        res.push_str(&_xml_es(&a.to_string()));
    }""","""    for a in args {
        match a.deref() {
            TData::List(_) | TData::Map(_) => res.push_str(&a.to_string()),
            _ => res.push_str(&_xml_es(&a.to_string())),
        }
    }"""),(SV,"use tparam::*;\n","use std::ops::Deref;\nuse tparam::*;\n")],r'''fn main(){ ok("{{xml_esc \"<\"}}",&[],"&lt;"); ok("{{xml_esc [\"<\"]}}",&[],"[&lt;]"); }''','a list as argument','xml_esc passes lists and maps through unescaped')
bug('c22-quot','C22',[(SV,"""            '\\"' => res.push_str("&quot;"),""","""            '\\"' if !res.ends_with('=') => res.push_str("&quot;"),""")],r'''fn main(){ ok("{{xml_esc \"a\\\"\"}}",&[],"a&quot;"); ok("{{xml_esc \"a=\\\"\"}}",&[],"a=&quot;"); }''','a quote right after an equals sign','xml_esc leaves a quote after an equals sign')
bug('c30-shell','C30',[(EX,"""    let c = Command::new(args[0].to_string())
        .args(args[1..].into_iter().map(|v| v.to_string()))
        .output()?;""","""    let prog = args[0].to_string();
    let mut cmd = match args.len() {
        1 if prog.contains(' ') => {
            let mut c = Command::new("sh");
            c.arg("-c").arg(&prog);
            c
        }
        _ => Command::new(&prog),
    };
    let c = cmd.args(args[1..].into_iter().map(|v| v.to_string())).output()?;""")],EXM+r'''fn main(){ x("{{exec \"echo\" \"-n\" \"a b\"}}",Ok("a b")); x("{{exec \"echo -n hi\"}}",Err(())); }''','a program name with a blank and no arguments','exec hands a command line to a shell')
bug('c30-empty-arg','C30',[(EX,"""        .args(args[2..].into_iter().map(|v| v.to_string()))""","""        .args(args[2..].into_iter().map(|v| v.to_string()).filter(|v| !v.is_empty()))""")],EXM+r'''fn main(){ x("{{exec_stdin \"cat\" \"q\"}}",Ok("q")); x("{{exec_stdin \"printf\" \"q\" \"[%s]\" \"\" \"b\"}}",Ok("[][b]")); }''','an empty argument of exec_stdin','exec_stdin drops empty arguments')
bug('c30-env-empty','C30',[(EX,"""        Ok(v) => Ok(TCow::Owned(TData::String(v))),""","""        Ok(v) if v.is_empty() && args.len() > 1 => Ok(args[1].clone()),
        Ok(v) => Ok(TCow::Owned(TData::String(v))),""")],EXM+r'''fn main(){ std::env::set_var("TQ_E",""); std::env::set_var("TQ_F","f"); x("{{env \"TQ_F\" \"d\"}}",Ok("f")); x("{{env \"TQ_E\" \"d\"}}",Ok("")); }''','a variable that is set but empty, with a default','env gives the default for a variable that is set')
bug('c33-bytes-lossy','C33',[(BY,"""    let b_ar = match l.get(0).e_str("needs 1 arg")?.deref() {
        TData::String(s) => s.as_bytes(),
        TData::Bytes(b) => b,
        _ => return e_str("as_base64 requires 1 string or bytes"),
    };
    let s = base64::encode(b_ar);""","""    let b_ar = match l.get(0).e_str("needs 1 arg")?.deref() {
        TData::String(s) => s.trim_end_matches('\\0').as_bytes(),
        TData::Bytes(b) => b,
        _ => return e_str("as_base64 requires 1 string or bytes"),
    };
    let s = base64::encode(b_ar);""")],r'''fn main(){ let a=TData::String("ab\0".to_string()); ok("{{as_base64 $0}}",&[&a],"YWIA"); ok("{{as_base64 \"ab\"}}",&[],"YWI="); }''','a text that ends in a zero byte','as_base64 drops zero bytes at the end of a text')
bug('c38-split-tail','C38',[(ST,"""                v.split(splitter)
""","""                v.split_terminator(splitter)
""")],r'''fn main(){ ok("{{split \"a,b\" \",\"}}",&[],"[a,b]"); ok("{{split \"a,b,\" \",\"}}",&[],"[a,b,]"); }''','a text that ends with the separator','split drops the empty part at the end')
bug('c38-contains-empty','C38',[(ST,"""        if s.contains(&sub) {""","""        if sub.len() <= s.len() && !sub.is_empty() && s.contains(&sub) {""")],r'''fn main(){ ok("{{str_contains \"abc\" \"b\"}}",&[],"true"); ok("{{str_contains \"abc\" \"\"}}",&[],"true"); }''','an empty text to look for','str_contains says an empty text is not contained')
bug('c38-replace-n','C38',[(ST,"""    let n = args.get(3).and_then(|v| v.as_usize()).unwrap_or(1);""","""    let n = args.get(3).and_then(|v| v.as_usize()).unwrap_or(1).max(1);""")],r'''fn main(){ ok("{{str_replace_n \"aa\" \"a\" \"b\" 1}}",&[],"ba"); ok("{{str_replace_n \"aa\" \"a\" \"b\" 0}}",&[],"aa"); }''','a count of zero','str_replace_n replaces one occurrence when asked for none')
bug('c38-ints-zero','C38',[(ST,"""        if let Some(Some(ch)) = c {
            res.push(ch)
        }""","""        if let Some(Some(ch)) = c {
            if !(ch == '\\u{feff}' && res.is_empty()) {
                res.push(ch)
            }
        }""")],r'''fn main(){ ok("{{string_from_ints 65 66}}",&[],"AB"); ok("{{string_from_ints 65279 66}}",&[],"\u{feff}B"); }''','a byte order mark first','string_from_ints drops a byte order mark')
bug('c38-regex-full','C38',[(ST,"""    let reg = regex::Regex::new(&l[1].to_string())?;""","""    let mut pat = l[1].to_string();
    if pat.starts_with('^') && !pat.ends_with('$') && !pat.contains('|') && pat.len() > 8 {
        pat.push('$');
    }
    let reg = regex::Regex::new(&pat)?;""")],r'''fn main(){ ok("{{regex \"abcdefghij\" \"^abc\"}}",&[],"true"); ok("{{regex \"abcdefghij\" \"^abcdefgh\"}}",&[],"true"); }''','a long anchored pattern','regex anchors the end of a pattern that anchors its start')
bug('c39-font-unit','C39',[(SV,"""    let u = units(args, 2);
    b_ok(TData::String(format!(r#"font-size="{}{2}" {}"#, sz, ff, u)))""","""    let u = if ff.is_empty() { String::new() } else { units(args, 2) };
    let u = if args.len() > 3 { units(args, 3) } else { u };
    b_ok(TData::String(format!(r#"font-size="{}{2}" {}"#, sz, ff, u)))""")],r'''fn main(){ ok("{{font 2 \"a\" \"px\"}}",&[],"font-size=\"2px\" font-family=\"a\" "); ok("{{font 2 \"a\" \"px\" 5}}",&[],"font-size=\"2px\" font-family=\"a\" "); }''','more arguments than font uses','font takes its unit from the last argument')
bug('c39-cxyrr','C39',[(SV,"""        r#"cx="{}{4}" cy="{}{4}" rx="{}{4}" ry="{}{4}""#,
        x, y, rx, ry, u""","""        r#"cx="{}{4}" cy="{}{4}" rx="{}{4}" ry="{}{4}""#,
        x, y, ry, rx, u""")],r'''fn main(){ ok("{{cxyrr 1 2 3 3}}",&[],"cx=\"1\" cy=\"2\" rx=\"3\" ry=\"3\""); ok("{{cxyrr 1 2 3 4}}",&[],"cx=\"1\" cy=\"2\" rx=\"3\" ry=\"4\""); }''','two different radii','cxyrr swaps its radii')
bug('c39-stroke-unit','C39',[(SV,"""        r#"fill="{}" stroke="{}" stroke-width="{}{3}\"""","""        r#"fill="{}" stroke="{}{3}" stroke-width="{}{3}\"""")] if False else [(SV,"""    let u = units(args, 3);
    let sw = args.get(2)""","""    let u = units(args, if args.len() > 4 { 4 } else { 3 });
    let sw = args.get(2)""")],r'''fn main(){ ok("{{fl_stk 1 2 3 \"px\"}}",&[],"fill=\"1\" stroke=\"2\" stroke-width=\"3px\""); ok("{{fl_stk 1 2 3 \"px\" \"em\"}}",&[],"fill=\"1\" stroke=\"2\" stroke-width=\"3px\""); }''','more arguments than fl_stk uses','fl_stk takes its unit from the fifth argument')
bug('c40-crumbs','C40',[(PA,"""        res.insert(0, path_dat(&par));
        path""","""        if par.as_os_str().is_empty() && res.len() > 1 {
            break;
        }
        res.insert(0, path_dat(&par));
        path""")],r'''fn main(){ ok("{{bread_crumbs \"a\"}}",&[],"[,a]"); ok("{{bread_crumbs \"a/b\"}}",&[],"[,a,a/b]"); }''','a relative path of two parts','bread_crumbs leaves out the empty root of longer relative paths')
bug('c40-join-abs','C40',[(PA,"""        path.push(v.to_string());""","""        let v = v.to_string();
        path.push(if path.as_os_str().is_empty() { &v[..] } else { v.trim_start_matches("//") });""")],r'''fn main(){ ok("{{join \"a\" \"/b\"}}",&[],"/b"); ok("{{join \"a\" \"//b\"}}",&[],"//b"); }''','a later argument that begins with two slashes','join treats such an argument as relative')
bug('c40-base-second','C40',[(PA,"""pub fn base_name_sure<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    b_ok(TData::String(
        join_args(args)
            .file_name()""","""pub fn base_name_sure<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    b_ok(TData::String(
        join_args(&args[..args.len().min(3)])
            .file_name()""")],r'''fn main(){ ok("{{base_name_sure \"a\" \"b\"}}",&[],"b"); ok("{{base_name_sure \"a\" \"b\" \"c\" \"d\"}}",&[],"d"); }''','more than three arguments','base_name_sure looks only at three arguments')
bug('c40-ext-dot','C40',[(PA,"""    let j = join_args(args);
    let stem = j.file_stem().e_str("No file to stem")?;""","""    let j = join_args(args);
    if j.extension().map(|e| e.is_empty()).unwrap_or(false) {
        return b_ok(TData::String(j.display().to_string()));
    }
    let stem = j.file_stem().e_str("No file to stem")?;""")],r'''fn main(){ ok("{{full_stem \"a/b.c\"}}",&[],"a/b"); ok("{{full_stem \"a/b.\"}}",&[],"a/b"); }''','a name ending in a dot','full_stem keeps an empty extension')
bug('c41-map-twice','C41',[(MA,"""                res.insert(s.clone(), v.clone().into_owned());""","""                res.entry(s.clone()).or_insert_with(|| v.clone().into_owned());""")],r'''fn main(){ ok("{{let m=map \"a\" 1 \"b\" 2}}{{$m.b}}",&[],"2"); ok("{{let m=map \"a\" 1 \"a\" 2}}{{$m.a}}",&[],"2"); }''','the same name twice','map keeps the first value of a name')
bug('c41-type-of','C41',[(BO,"""        TData::UInt(_) => "uint",""","""        TData::UInt(n) if *n > i64::MAX as usize => "float",
        TData::UInt(_) => "uint",""")],r'''fn main(){ ok("{{type_of $0}}",&[&5usize],"uint"); ok("{{type_of $0}}",&[&usize::MAX],"uint"); }''','an unsigned number above the signed range','type_of calls it a float')
