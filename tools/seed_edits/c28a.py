from lib import *
p=X+'send_future.rs'; s=open(p).read()
a="""            match self {
                Sending::New { msg, .. } => msg.set_priority(new_priority),
                _ => panic!("Cannot set priority after first poll"),
            }
"""
assert s.count(a)==1
s=s.replace(a,"""            if let Sending::New { msg, .. } = self {
                msg.set_priority(new_priority)
            }
""")
open(p,'w').write(s)
