from lib import *
sub(X+'message_channel.rs', ('        SendFuture::sending_erased(message, self.0.clone())\n','        SendFuture::sending_erased(message, self.0.to_tx_weak())\n'))
