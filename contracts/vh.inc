//@ for $C C11
//@ ret r
//@ spec
  ensures r is Ok <==> self.v().vh_ok(), // [$C C11]
    r matches Ok(b) ==> (self.v().sane() && small(self.v().vh().len()) ==> b@ == self.v().vh()) // [$C]
