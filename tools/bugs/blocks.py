T='src/template.rs'
bug('c25-else-elif','C25',[(T,"""            FlatItem::EndBlock(v) if v == "if" => return Ok(Some(no)),
            other => no.push(tt_basic(other, it)?),""","""            FlatItem::EndBlock(v) if v == "if" => return Ok(Some(no)),
            FlatItem::Elif(_) => continue,
            other => no.push(tt_basic(other, it)?),""")],'''fn main(){ fails("{{if true}}a{{else}}b{{elif true}}c{{/if}}",&[]); ok("{{if false}}a{{else}}b{{/if}}",&[],"b"); }''',
'an elif after the else of the same if','an elif after else is dropped and its body joins the else part')
bug('c25-switch-blank','C25',[(T,"""            FlatItem::String(s) => match curr {
                Some(ref mut cb) => cb.block.push(TreeItem::String(s)),
                None => {}
            },""","""            FlatItem::String(s) => match curr {
                Some(ref mut cb) if !cb.block.is_empty() || !s.trim().is_empty() => {
                    cb.block.push(TreeItem::String(s))
                }
                _ => {}
            },""")],'''fn main(){ ok("{{switch 1}}{{case 1}} {{$0}}{{/switch}}",&[&"x"]," x"); }''',
'a case whose body starts with blank text','blank text at the start of a case is dropped')
bug('c25-prefix','C25',[(T,"FlatItem::EndBlock(n) if n == name => return Ok(res),","FlatItem::EndBlock(n) if n.starts_with(name) => return Ok(res),")],
'''fn main(){ fails("{{@let a}}x{{/letter}}y",&[]); ok("{{@let a}}x{{/let}}{{$a}}",&[],"x"); }''','a closer that only starts with the name of its opener','{{/letter}} closes @let')
bug('c25-if-eof','C25',[(T,"""    //Should this fail?
    e_str("Expected '/if' 'else' or 'elif'")""","""    if yes.is_empty() {
        return e_str("Expected '/if' 'else' or 'elif'");
    }
    Ok(TreeItem::If {
        cond,
        yes,
        no: None,
    })""")],'''fn main(){ fails("{{if true}}x",&[]); fails("{{if true}}",&[]); ok("{{if true}}x{{/if}}",&[],"x"); }''','an if with a body that is never closed','an unclosed if is accepted when it has a body')
bug('c25-elif-inner','C25',[(T,"""                return Ok(TreeItem::If {
                    cond,
                    yes,
                    no: Some(vec![tt_if_yes(p, it)?]),
                })""","""                let mut no = vec![tt_if_yes(p, it)?];
                while no.len() == 1 && matches!(&no[0], TreeItem::If { yes, no: None, .. } if yes.is_empty()) {
                    no.clear();
                }
                return Ok(TreeItem::If {
                    cond,
                    yes,
                    no: Some(no),
                })""")],'''fn main(){ fails("{{if false}}a{{elif (for 1)}}{{/if}}{{nosuch}}",&[]); let t=TreeTemplate::from_str("{{if false}}a{{elif true}}{{/if}}").unwrap(); let u=TreeTemplate::from_str("{{if false}}a{{else}}{{/if}}").unwrap(); if t==u { eprintln!("the elif is gone"); std::process::exit(1) } }''','an elif with an empty body at the end of an if','an elif with an empty body is dropped, condition and all')
