// ---------------------------------------------------------------- packet constructors
//@ fn src/mqtt_serde/mqttv5/puback.rs MqttPubAck::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPubAck5 { packet_id, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/puback.rs MqttPubAck::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPubAck3 { message_id })
//@ end
//@ fn src/mqtt_serde/mqttv5/pubrec.rs MqttPubRec::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPubRec5 { packet_id, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/pubrec.rs MqttPubRec::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPubRec3 { message_id })
//@ end
//@ fn src/mqtt_serde/mqttv5/pubrel.rs MqttPubRel::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPubRel5 { packet_id, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/pubrel.rs MqttPubRel::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPubRel3 { message_id })
//@ end
//@ fn src/mqtt_serde/mqttv5/pubcomp.rs MqttPubComp::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPubComp5 { packet_id, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/pubcomp.rs MqttPubComp::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPubComp3 { message_id })
//@ end
//@ fn src/mqtt_serde/mqttv5/publish.rs MqttPublish::new_with_prop
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPublish5 { topic_name, packet_id, payload, qos, dup, retain, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/publish.rs MqttPublish::new
//@ for C04 C05 C16 C25
//@ ret r
//@ spec
  ensures r == (MqttPublish3 { dup, qos, retain, topic_name, message_id, payload })
//@ end
//@ fn src/mqtt_serde/mqttv5/connect.rs MqttConnect::new keep-literals
//@ method to_string vx_own
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttConnect5 { protocol_name: r.protocol_name, protocol_version: 5, keep_alive, client_id, will, username, password, properties, clean_start }), r.protocol_name@ == "MQTT"@
//@ end
//@ fn src/mqtt_serde/mqttv3/connect.rs MqttConnect::new keep-literals
//@ method to_string vx_own
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttConnect3 { protocol_name: r.protocol_name, protocol_version: 4, clean_session, keep_alive, client_id, will: None, username: None, password: None }), r.protocol_name@ == "MQTT"@
//@ end
//@ fn src/mqtt_serde/mqttv5/subscribe.rs MqttSubscribe::new
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttSubscribe5 { packet_id, subscriptions, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/subscribe.rs MqttSubscribe::new
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttSubscribe3 { message_id, subscriptions })
//@ end
//@ fn src/mqtt_serde/mqttv5/unsubscribe.rs MqttUnsubscribe::new
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttUnsubscribe5 { packet_id, topic_filters, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/unsubscribe.rs MqttUnsubscribe::new
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttUnsubscribe3 { message_id, topic_filters })
//@ end
//@ fn src/mqtt_serde/mqttv5/disconnect.rs MqttDisconnect::new
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttDisconnect5 { reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/disconnect.rs MqttDisconnect::new
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttDisconnect3 {})
//@ end
//@ fn src/mqtt_serde/mqttv5/pingreq.rs MqttPingReq::new
//@ for C04 C05 C19
//@ ret r
//@ spec
  ensures r == MqttPingReq5
//@ end
//@ fn src/mqtt_serde/mqttv3/pingreq.rs MqttPingReq::new
//@ for C04 C05 C19
//@ ret r
//@ spec
  ensures r == MqttPingReq3
//@ end
//@ fn src/mqtt_serde/mqttv5/auth.rs MqttAuth::new
//@ for C04 C05 C25
//@ ret r
//@ spec
  ensures r == (MqttAuth5 { reason_code, properties })
//@ end
