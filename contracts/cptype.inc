//@ item src/mqtt_serde/control_packet.rs ControlPacketType derive=Clone,Copy
//@ fn src/mqtt_serde/parser/mod.rs packet_type
//@ for C04 C05 C06
//@ ret r
//@ spec
  ensures match r { Ok(x) => buffer@.len() > 0 && x == buffer@[0] / 16, Err(_) => buffer@.len() == 0 }
//@ begin
  broadcast use bits;
//@ end
//@ fn src/mqtt_serde/control_packet.rs ControlPacketType::try_from
//@ for C04 C05 C06
//@ sigsubst Self :: Error ==> ParseError
//@ ret r
//@ spec
  ensures match r { Ok(p) => 1 <= value <= 15 && p as u8 == value, Err(_) => value == 0 || value > 15 }
//@ end
