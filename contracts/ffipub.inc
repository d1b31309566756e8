//@ fn flowsdk_ffi/src/engine.rs $O::publish
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).rest(old(self)),
    before(final(self).engine) == old(self).engine, last(final(self).engine) matches Did::Publish(c, x) && plain_publish(c, topic, payload, qos, $P) && r == number(x)
//@ begin
  broadcast use group_into;
//@ end
