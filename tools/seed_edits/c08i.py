from lib import *
import re
p=X+'chan/ptr.rs'
s=open(p).read()
i=s.index('        let mut n = inner.sender_count.load(Relaxed);')
j=s.index('/// The reference count of a weak address.')
s=s[:i]+'''        if inner.sender_count.load(Acquire) == 0 {
            return None;
        }

        inner.sender_count.fetch_add(1, Relaxed);

        Some(TxStrong(()))
    }
}

'''+s[j:]
open(p,'w').write(s)
