# std's mutex instead of spin's
from lib import *
import re
for f in ('chan.rs','chan/waiting_sender.rs'):
    p=X+f; s=open(p).read()
    s=s.replace('spin::Mutex','std::sync::Mutex')
    open(p,'w').write(s)
p=X+'chan.rs'; s=open(p).read()
s=s.replace('broadcast_mailbox.lock().peek()','broadcast_mailbox.lock().unwrap().peek()').replace('broadcast_mailbox.lock().pop()','broadcast_mailbox.lock().unwrap().pop()').replace('queue.lock().len()','queue.lock().unwrap().len()').replace('q.lock().push','q.lock().unwrap().push')
open(p,'w').write(s)
p=X+'chan/waiting_sender.rs'; s=open(p).read()
s=s.replace('.lock();','.lock().unwrap();').replace('.lock()\n','.lock().unwrap()\n')
open(p,'w').write(s)
