//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), frame1(*old(self), *final(self)),
     r is Ok ==> may_command(*old(self)) && final(self).$D is Some && (old(self).$D is Some ==> final(self).$D == old(self).$D) && carried(*old(self), *final(self), Asked::$A(command), final(self).$D->Some_0),
     r is Err ==> nothing(*old(self), *final(self), final(self).$D),
//@ begin
  proof { axiom_stream_key(); }
