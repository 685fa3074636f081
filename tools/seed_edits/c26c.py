from lib import *
sub('macros/src/lib.rs', ('            existing.predicates.extend(send_and_static_bounds);\n','''            // Parameters the user constrained themselves are left alone
            for bound in send_and_static_bounds {
                if existing.predicates.len() < derive_input.generics.params.len() {
                    existing.predicates.push(bound);
                }
            }
'''))
