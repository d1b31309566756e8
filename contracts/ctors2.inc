//@ fn src/mqtt_serde/mqttv3/unsuback.rs MqttUnsubAck::new
//@ for C05
//@ ret r
//@ spec
  ensures r == (MqttUnsubAck3 { message_id })
//@ end
//@ fn src/mqtt_serde/mqttv5/pingresp.rs MqttPingResp::new
//@ for C04
//@ ret r
//@ spec
  ensures r == MqttPingResp5
//@ end
//@ fn src/mqtt_serde/mqttv3/pingresp.rs MqttPingResp::new
//@ for C05
//@ ret r
//@ spec
  ensures r == MqttPingResp3
//@ end
//@ fn src/mqtt_serde/mqttv5/connack.rs MqttConnAck::new
//@ for C04
//@ ret r
//@ spec
  ensures r == (MqttConnAck5 { session_present, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/connack.rs MqttConnAck::new
//@ for C05
//@ ret r
//@ spec
  ensures r == (MqttConnAck3 { session_present, return_code })
//@ end
//@ fn src/mqtt_serde/mqttv3/suback.rs MqttSubAck::new
//@ for C05
//@ ret r
//@ spec
  ensures r == (MqttSubAck3 { message_id, return_codes })
//@ end
