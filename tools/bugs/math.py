M='src/funcs/math.rs'
bug('c06-sub-cast','C06',[(M,"                Ok(TCow::Owned(TData::UInt(a - b)))","                b_ok(TData::Int((a - b) as isize))")],
'''fn main(){ ok("{{sub $0 $1}}",&[&usize::MAX,&1usize],"18446744073709551614"); ok("{{sub 7 2}}",&[],"5"); }''','an unsigned difference above the signed range','the difference of two large unsigned numbers wraps to a negative number')
bug('c06-match-cast','C06',[(M,"        (TData::UInt(a), TData::UInt(b)) => U(*a, *b),","        (TData::UInt(a), TData::UInt(b)) => match a.checked_add(*b) {\n            Some(_) => U(*a, *b),\n            None => I(*a as isize, *b as isize),\n        },")],
'''fn main(){ let r=t("{{add $0 $1}}",&[&usize::MAX,&3usize]); assert!(r.is_err(),"{:?}",r); ok("{{add 1 2}}",&[],"3"); let r=t("{{div $0 $1}}",&[&usize::MAX,&1usize]); assert_eq!(r,Ok("18446744073709551615".to_string())); }''','two unsigned operands whose sum needs more than 64 bits','operands are reinterpreted as signed numbers and the result is wrong instead of an error')
bug('c07-float-int','C07',[(M,"        (TData::Float(a), TData::Int(b)) => F(*a, *b as f64),","        (TData::Float(a), TData::Int(b)) if *a == a.trunc() && *b < 0 => I(*a as isize, *b),\n        (TData::Float(a), TData::Int(b)) => F(*a, *b as f64),")],
'''fn main(){ ok("{{div $0 $1}}",&[&3.0f64,&TData::Int(-2)],"-1.5"); ok("{{div $0 $1}}",&[&3.5f64,&TData::Int(-2)],"-1.75"); }''','a float with an integral value on the left of a negative integer','a float operand becomes an integer, so 3.0 / -2 is -1')
bug('c07-fold-skip','C07',[(M,"    for a in &l[1..] {\n        res = f(res, a)?;","    for (i, a) in l.iter().enumerate().skip(1) {\n        if i > 3 && i + 1 == l.len() && i % 2 == 0 {\n            return f(a.clone(), &res);\n        }\n        res = f(res, a)?;")],
'''fn main(){ ok("{{sub 10 1 1 1 2}}",&[],"5"); ok("{{sub 10 1 1 2}}",&[],"6"); ok("{{add 1 2 3 4 5}}",&[],"15"); }''','five arguments of an operation that is not commutative','the last of five arguments becomes the left operand')
bug('c07-max-abs','C07',[(M,"        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.max(b)))),","        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(if a < 0 && b < 0 {\n            -a.abs().max(b.abs())\n        } else {\n            a.max(b)\n        }))),")],
'''fn main(){ ok("{{max $0 $1}}",&[&TData::Int(-3),&TData::Int(-5)],"-3"); ok("{{max 3 $0}}",&[&TData::Int(-5)],"3"); }''','two negative integers','max of two negative integers gives the smaller one')
bug('c07-single','C07',[(M,"    if l.len() == 0 {\n        return e_str(\"No arguments given\");","    if l.len() == 0 {\n        return e_str(\"No arguments given\");\n    }\n    if l.len() > 9 {\n        return f(fold_head(&l[..9], &f)?, &l[9]);"),(M,"pub enum NumMatch {","fn fold_head<T: Clone, F: Fn(T, &T) -> anyhow::Result<T>>(l: &[T], f: &F) -> anyhow::Result<T> {\n    let mut r = l[0].clone();\n    for a in &l[1..] {\n        r = f(r, a)?;\n    }\n    Ok(r)\n}\n\npub enum NumMatch {")],
'''fn main(){ ok("{{add 1 1 1 1 1 1 1 1 1 1 1}}",&[],"11"); ok("{{add 1 1 1 1 1 1 1 1 1 1}}",&[],"10"); }''','more than ten arguments','arguments after the tenth are dropped')
