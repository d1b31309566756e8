//@ for $C C11
//@ ret r
//@ spec
  ensures r is Ok <==> self.v().pl_ok(), // [$C C11]
    r matches Ok(b) ==> (small(self.v().pl().len()) ==> b@ == self.v().pl()) // [$C]
