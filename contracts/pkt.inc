// ---- $N
spec fn d_$N(b: Seq<u8>, h: int, t: int) -> Option<VPacket> { match $D { Some(v) => Some(VPacket::$N(v)), None => None } }
//@ fn $F $T::control_packet_type
//@ for $C
//@ ret r
//@ spec
  ensures r == self.v().ty()
//@ end
//@ fn $F $T::flags orelse=src/mqtt_serde/control_packet.rs#MqttControlPacket
//@ for $C
//@ ret r
//@ spec
  ensures self.v().sane() ==> r == self.v().fl()
//@ begin
  broadcast use bits;
//@ end
//@ fn $F $T::fixed_header orelse=src/mqtt_serde/control_packet.rs#MqttControlPacket
//@ for $C
//@ ret r
//@ spec
  ensures self.v().sane() && small(len as nat) ==> r@ == fixed(first(self.v().ty(), self.v().fl()), len as nat), r@.len() <= 6
//@ end
//@ fn $F $T::to_bytes orelse=src/mqtt_serde/control_packet.rs#MqttControlPacket
//@ for $C C11
//@ ret r
//@ spec
  ensures r is Ok <==> self.v().vh_ok() && self.v().pl_ok(), // [$C C11]
    r matches Ok(b) ==> (self.v().sane() && small(body(self.v()).len()) ==> b@ == frame(self.v())) // [$C]
//@ end
//@ fn $F $T::encode_to_buffer orelse=src/mqtt_serde/control_packet.rs#MqttControlPacket
//@ for $C C11
//@ ret r
//@ spec
  ensures r is Ok <==> self.v().vh_ok() && self.v().pl_ok(), // [$C C11]
    r is Ok ==> (self.v().sane() && small(body(self.v()).len()) ==> final(bytes)@ == old(bytes)@ + frame(self.v())) // [$C]
//@ end
