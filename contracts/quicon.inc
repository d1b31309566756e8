//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), frame(*old(self), *final(self)),
     r is Ok ==> may_command(*old(self)) && old(self).data_streams@.contains_key(StreamId { id: stream }) && carried(*old(self), *final(self), Asked::$A(command), StreamId { id: stream }),
     r is Err ==> final(self).mqtt_engine.made() == old(self).mqtt_engine.made() && final(self).data_streams@ =~= old(self).data_streams@,
//@ begin
  proof { axiom_stream_key(); }
