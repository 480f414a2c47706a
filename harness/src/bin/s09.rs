//! Publish subject under every history of calls, also from inside callbacks and teardowns.
use rx_core::prelude::*;
use vh::prelude::*;
use vh::subj::{programs, Publ};
fn main() {
    main_with(|c| {
        programs::<Publ>(c, "", 0);
        // a subject used as a destination is not closed by its upstream's unsubscription
        for n in 0..3usize {
            c.case("subject as destination", &format!("{n} values"), || {
                let src = vh::Script::<i64, i64>::new();
                let mut subj = PublishSubject::<i64, i64>::default();
                let rec = RecH::new();
                let _s = subj.subscribe(rec.rec());
                let mut up = src.clone().subscribe(subj.clone());
                for i in 0..n {
                    src.send(Ev::N(i as i64));
                }
                up.unsubscribe();
                ensure(!subj.is_closed(), "the subject was closed by the upstream's unsubscription")?;
                subj.next(77);
                let mut want: Vec<IEv> = (0..n as i64).map(Ev::N).collect();
                want.push(Ev::N(77));
                eq("signals", rec.log(), want)
            });
        }
    });
}
