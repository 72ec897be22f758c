G='src/parse/template.rs'; X='src/parse/expr.rs'; M='src/parse/mod.rs'; Q='src/parse/pattern.rs'
bug('c11-open-string','C11',[(X,"""        last("r#\\"",chars_until(Any.one(),"\\"#")).map(|(a,_)|a),""","""        last("r#\\"",chars_until(Any.one(),or_ig!("\\"#",peek("-}}"),peek("}}")))).map(|(a,_)|a),""")],
'''fn main(){ fails(r##"{{cat r#"abc}}x"##,&[]); ok(r##"{{cat r#"a}}"#}}x"##,&[],"a}}x"); }''','a raw string that is not closed before the end of its tag','a raw string inside a tag ends at the closing delimiter of the tag')
bug('c11-rest','C11',[(G,"""    star_until_ig(Item,eoi).map(|v|FlatTemplate{v})""","""    (star(Item),maybe(IClose)).map(|(v,_)|FlatTemplate{v})""")],
'''fn main(){ fails("a{{if true}}b{{/if}}{{ ) }}c",&[]); ok("a{{if true}}b{{/if}}c",&[],"abc"); }''','a tag that cannot be read after readable ones','the template ends silently before the first tag that cannot be read')
bug('c36-run-ws','C36',[(G,"""        not(" \\n\\t\\r{\\\\").plus(),""","""        not("\\n\\t\\r{\\\\").plus(),""")],
'''fn main(){ ok("a {{-1}}",&[],"a1"); ok("a b {{1 -}} c",&[],"a b 1c"); }''','a space between a word and a trimming tag','spaces before {{- stay when they follow a word')
bug('c36-close-ws','C36',[(G,"""    wn_(or_ig!(("-}}",WN.star()),"}}"))""","""    wn_(or_ig!(("-}}",WN.star()),("}}",maybe("\\r"))))""")],
'''fn main(){ ok("{{1}}\\r\\nb",&[],"1\\r\\nb"); ok("{{1 -}}\\r\\nb",&[],"1b"); }''','a carriage return straight after a tag','the carriage return after a plain closing delimiter is dropped')
bug('c36-tab','C36',[(M,"""char_bool!(WN, " \\t\\n\\r");""","""char_bool!(WN, " \\t\\n");"""),(G,"""not(" \\n\\t\\r{\\\\").plus(),""","""not(" \\n\\t{\\\\").plus(),""")],
'''fn main(){ ok("a\\r\\n{{-1}}",&[],"a1"); ok("a\\n{{-1}}",&[],"a1"); }''','a carriage return beside a trimming tag','{{- leaves the carriage return of a line break')
bug('c37-global-params','C37',[(G,"""(keyword("global"),wn__(Ident),star(wn__(Ident))).map(|(_,n,l)|FlatItem::Global(n,l)),""","""(keyword("global"),wn__(Ident),star(wn__(Ident))).map(|(_,n,l)|FlatItem::Global(n,l.into_iter().rev().collect())),""")],
'''fn main(){ ok("{{global f a b}}{{$a}}-{{$b}}{{/global}}{{f 1 2}}",&[],"1-2"); ok("{{global f a}}{{$a}}{{/global}}{{f 1}}",&[],"1"); }''','a global template with two parameters','the parameter names of a global template are bound in reverse')
bug('c37-escape','C37',[(X,"""        'f'.asv('\\u{0C}'),""","""        'f'.asv('\\u{0B}'),""")],
'''fn main(){ ok(r#"{{"a\\fb"}}"#,&[],"a\\u{0C}b"); ok(r#"{{"a\\tb"}}"#,&[],"a\\tb"); }''','a form feed escape in a string','\\f yields a vertical tab')
bug('c37-month','C37',[(X,"""        "aug".asv(8),
        "sep".asv(9),""","""        "aug".asv(9),
        "sep".asv(8),""")],
'''fn main(){ ok("{{1/aug/2020}}",&[],"01/08/2020"); ok("{{1/jan/2020}}",&[],"01/01/2020"); }''','a date with the month aug or sep by name','aug and sep are swapped')
bug('c37-uint-first','C37',[(X,"""        common::UInt.map(|n|TData::UInt(n)),
        common::Int.map(|i|TData::Int(i)),""","""        common::Int.map(|i|if i>=0 {TData::UInt(i as usize)} else {TData::Int(i)}),""")],
'''fn main(){ ok("{{18446744073709551615}}",&[],"18446744073709551615"); ok("{{7}}",&[],"7"); }''','a whole number above the signed range','whole numbers above the signed range cannot be read')
bug('c37-block-order','C37',[(G,"""            (keyword("@export"),wn_(Ident)).map(|(_,n)|FlatItem::AtExport(n)),
            ('@',Ident," \\t\\n".istar(),star(wn__(Exp))).map(|(_,s,_,b)|FlatItem::Block(s,b)),""","""            ('@',Ident," \\t\\n".istar(),star(wn__(Exp))).map(|(_,s,_,b)|FlatItem::Block(s,b)),
            (keyword("@export"),wn_(Ident)).map(|(_,n)|FlatItem::AtExport(n)),""")],
'''fn main(){ ok("{{if true}}{{@export a}}x{{/export}}{{/if}}{{$a}}",&[],"x"); ok("{{@let a}}x{{/let}}{{$a}}",&[],"x"); }''','an @export block','@export is read as a call of a helper named export')
bug('c37-keyword','C37',[(Q,"""        keyword("_").asv(Pattern::Any),""","""        ("_",maybe(common::Ident)).map(|_|Pattern::Any),""")],
'''fn main(){ fails("{{as [1,2] : [_x,<b>]}}{{$b}}{{/as}}",&[]); ok("{{as [1,2] : [_,<b>]}}{{$b}}{{/as}}",&[],"2"); }''','a pattern name that begins with an underscore','_x is read as the wildcard')
bug('c36-esc-brace','C36',[(G,"""("\\\\",Any.one()).map(|(_,c)|c.to_string()),""","""("\\\\",not("}").one()).map(|(_,c)|c.to_string()),""")],
"""fn main(){ ok("a\\\\}}b",&[],"a}}b"); ok("a\\\\{b",&[],"a{b"); }""",'a backslash before a closing brace','an escaped closing brace cannot be read')
bug('c36-run-join','C36',[(G,"""        ("{",fail_on("{")).map(|(s,_)|s.to_string()),""","""        ("{",WN.star(),fail_on("{")).map(|(s,_,_)|s.to_string()),""")],
"""fn main(){ ok("a{ b",&[],"a{ b"); ok("a{b",&[],"a{b"); }""",'a blank after a single opening brace','blanks after a single brace are dropped')
bug('c10-hex','C10',[(X,"""            std::char::from_u32(n).ok_or(Expected::Str("4 Hex digits"))""","""            Ok(std::char::from_u32(n).unwrap_or_else(|| std::char::from_digit(n & 15, 10).unwrap()))""")],
"""fn main(){ fails2(); ok(r#"{{"\\u0041"}}"#,&[],"A"); }
fn fails2(){ let r=std::panic::catch_unwind(||t(r#"{{"\\udc0b"}}"#,&[]).is_ok()); if r.is_err(){ eprintln!("panics"); std::process::exit(1) } }""",'a unicode escape that is half of a surrogate pair','reading the escape of a lone surrogate panics')
bug('c10-sep','C10',[(Q,"""("[",sep_until_ig(wn__(Pat),maybe(","),"]")).map(|(_,v)|Pattern::List(v)),""","""("[",sep_until_ig(wn__(maybe(Pat)),maybe(","),"]")).map(|(_,v)|Pattern::List(v.into_iter().flatten().collect())),""")],
"""fn main(){ let (tx,rx)=std::sync::mpsc::channel(); std::thread::spawn(move||{ let r=t("{{as 1 : [)]}}x{{/as}}",&[]); let _=tx.send(r.is_ok()); });
match rx.recv_timeout(std::time::Duration::from_millis(700)){ Ok(_)=>{}, Err(_)=>{ eprintln!("hangs"); std::process::exit(1) } } ok("{{as [1,2] : [_,<b>]}}{{$b}}{{/as}}",&[],"2"); }""",'a list pattern with something that is no pattern inside','reading the pattern never ends')
bug('c11-assign','C11',[(G,"""    (wn_(Ident),wn_("="),wn_(Exp),ws_((or_ig!(";,\\n".one(),peek(IClose)),WN.star()))).map(|(a,_,v,_)|(a,v))""","""    (wn_(Ident),wn_("="),wn_(Exp),ws_((or_ig!(";,\\n".one(),peek(IClose),not("}=;\n").istar()),WN.star()))).map(|(a,_,v,_)|(a,v))""")],
"""fn main(){ fails("{{let a=1 )) }}{{$a}}",&[]); ok("{{let a=1;b=2}}{{$a}}",&[],"1"); }""",'junk between an assigned value and the end of its tag','text after an assigned value is ignored up to the closing delimiter')
