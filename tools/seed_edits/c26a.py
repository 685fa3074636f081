from lib import *
sub('macros/src/lib.rs', ('#ident: Send + \'static', '#ident: Send + Sync + \'static'))
