from lib import *
sub(X+'address.rs', ('''            Ordering::Equal => self.0.is_strong().cmp(&other.0.is_strong()),''','''            Ordering::Equal if std::any::TypeId::of::<Rc>() == std::any::TypeId::of::<Rc2>() => {
                Ordering::Equal
            }
            Ordering::Equal => self.0.is_strong().cmp(&other.0.is_strong()),'''))
