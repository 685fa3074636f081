from lib import *
sub(X+'envelope.rs', ('''        let (msg, instrumentation) = (self.message.clone(), self.instrumentation.clone());
        drop(self); // Drop ASAP to end the message waiting for actor span
''','''        let instrumentation = self.instrumentation.clone();
'''),('            act.handle(msg, &mut ctx).await;\n','            act.handle(self.message.clone(), &mut ctx).await;\n'))
