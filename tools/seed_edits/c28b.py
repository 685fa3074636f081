from lib import *
sub(X+'recv_future.rs', ('matches!(self, Receiving::Done)', '!matches!(self, Receiving::New { .. })'))
