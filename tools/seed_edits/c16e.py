from lib import *
sub(X+'chan.rs', ('''    queue.retain(|handle| handle.is_active()); // Only process handles which are still active.
''','''    // Only process handles which are still active.
    while let Some(gone) = queue.iter().position(|handle| !handle.is_active()) {
        queue.swap_remove_back(gone);
    }
'''))
