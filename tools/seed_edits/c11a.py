from lib import *
s=open(X+'send_future.rs').read()
i=s.index('impl<R, F> Future for SendFuture<F, ResolveToReceiver<R>>')
j=s.index('''        if !this.sending.is_terminated() {
            futures_util::ready!(this.sending.poll_unpin(ctx))?;
        }
''',i)
k=s.index('        let receiver',j)
s=s[:j]+'        futures_util::ready!(this.sending.poll_unpin(ctx))?;\n\n'+s[k:]
open(X+'send_future.rs','w').write(s)
