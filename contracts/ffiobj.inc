impl $O {
    /// only the engine changed
    spec fn rest(&self, o: &$O) -> bool { self.events == o.events && self.start_time == o.start_time }
}
//@ fn flowsdk_ffi/src/engine.rs $O::take_events
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).start_time == old(self).start_time, final(self).events@.len() == 0,
    before(final(self).engine) == old(self).engine, last(final(self).engine) matches Did::Take(es) && r@ =~= old(self).events@ + foreigns(es)
//@ begin
  broadcast use foreign_all, group_time;
//@ end
//@ fn flowsdk_ffi/src/engine.rs $O::handle_tick
//@ include unlock.inc
//@ ret r
//@ spec
  requires at(old(self).start_time) + now_ms * 1000000 <= at_max()
  ensures final(self).start_time == old(self).start_time,
    before(final(self).engine) == old(self).engine, last(final(self).engine) matches Did::Tick(t, es) && at(t) == at(old(self).start_time) + now_ms * 1000000 && r@ =~= foreigns(es) && final(self).events@ =~= old(self).events@ + foreigns(es)
//@ begin
  broadcast use foreign_all, group_time;
//@ end
//@ fn flowsdk_ffi/src/engine.rs $O::subscribe
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).rest(old(self)),
    before(final(self).engine) == old(self).engine, last(final(self).engine) matches Did::Subscribe(c, x) && plain_subscribe(c, topic_filter, qos) && r == number1(x)
//@ begin
  broadcast use group_into;
//@ end
//@ fn flowsdk_ffi/src/engine.rs $O::unsubscribe
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).rest(old(self)),
    before(final(self).engine) == old(self).engine, last(final(self).engine) matches Did::Unsubscribe(c, x) && plain_unsubscribe(c, topic_filter) && r == number1(x)
//@ end
//@ fn flowsdk_ffi/src/engine.rs $O::disconnect
//@ include unlock.inc
//@ spec
  ensures final(self).rest(old(self)), did(old(self).engine, Did::Disconnect, final(self).engine)
//@ end
//@ fn flowsdk_ffi/src/engine.rs $O::is_connected
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).rest(old(self)), final(self).engine == old(self).engine, r == linked(old(self).engine)
//@ end
