from lib import *
sub(X+'chan/priority.rs', ('    Valued(u32),\n    Shutdown,\n','    Valued(u32),\n'))
s=open(X+'envelope.rs').read().replace('Priority::Shutdown','Priority::Valued(u32::MAX)'); open(X+'envelope.rs','w').write(s)
