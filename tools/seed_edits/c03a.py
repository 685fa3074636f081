from lib import *
sub(X+'chan.rs', ('    queue.remove(pos)\n', '    queue.swap_remove_back(pos)\n'))
