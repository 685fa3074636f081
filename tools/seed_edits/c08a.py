from lib import *
s=open(X+'chan/ptr.rs').read()
a=s.index('        // Relaxed load because any write of 0'); b=s.index('''/// The reference count of a weak address.''')
s=s[:a]+'''        if inner.sender_count.load(Acquire) == 0 {
            return None;
        }

        inner.sender_count.fetch_add(1, AcqRel);

        Some(TxStrong(()))
    }
}

'''+s[b:]
open(X+'chan/ptr.rs','w').write(s)
