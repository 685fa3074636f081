from lib import *
s=open(X+'chan.rs').read()
a=s.index("    // `max_by_key` returns the last one"); b=s.index('    queue.remove(pos)')
s=s[:a]+'''    // The front is the one waiting for longest, unless a more urgent one came right behind it
    let pos = match (queue.front()?.priority(), queue.get(1).map(|h| h.priority())) {
        (first, Some(second)) if second > first => 1,
        _ => 0,
    };

'''+s[b:]
open(X+'chan.rs','w').write(s)
