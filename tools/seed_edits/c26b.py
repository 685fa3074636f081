from lib import *
sub('macros/src/lib.rs', ('''        .filter_map(|gp| match gp {
            GenericParam::Type(tp) => Some(&tp.ident),
            GenericParam::Lifetime(_) => None,
            GenericParam::Const(_) => None,
        })
''','''        .skip_while(|gp| matches!(gp, GenericParam::Lifetime(_)))
        .map_while(|gp| match gp {
            GenericParam::Type(tp) => Some(&tp.ident),
            _ => None,
        })
'''))
