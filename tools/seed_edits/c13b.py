from lib import *
sub(X+'message_channel.rs', ('''        self.same_actor(other) && (self.inner.is_strong() == other.inner.is_strong())''','''        // Both have the same type, hence the same strength
        self.same_actor(other)'''))
