from lib import *
sub(X+'lib.rs', ('''            match future::select(fut, &mut next_msg).await {
                Either::Left((future_res, _)) => {''','''            match future::select(&mut next_msg, fut).await {
                Either::Right((future_res, _)) => {'''),('''                Either::Right(tuple) => tuple,''','''                Either::Left(tuple) => tuple,'''))
