// the packet types, extracted
//@ macros src/mqtt_serde/mqttv5/packet_id_ack.rs
//@ macros src/mqtt_serde/mqttv3/packet_id_ack.rs
//@ item src/mqtt_serde/mqttv5/common/properties.rs Property derive=Clone
//@ item src/mqtt_serde/mqttv5/will.rs WillProperties derive=Clone
//@ item src/mqtt_serde/mqttv5/will.rs Will derive=Clone
//@ item src/mqtt_serde/mqttv5/connect.rs MqttConnect derive=Clone
//@ item src/mqtt_serde/mqttv5/connack.rs MqttConnAck derive=Clone
//@ item src/mqtt_serde/mqttv5/publish.rs MqttPublish derive=Clone
//@ item src/mqtt_serde/mqttv5/puback.rs MqttPubAck derive=Clone
//@ item src/mqtt_serde/mqttv5/pubrec.rs MqttPubRec derive=Clone
//@ item src/mqtt_serde/mqttv5/pubrel.rs MqttPubRel derive=Clone
//@ item src/mqtt_serde/mqttv5/pubcomp.rs MqttPubComp derive=Clone
//@ item src/mqtt_serde/mqttv5/subscribe.rs TopicSubscription derive=Clone
//@ item src/mqtt_serde/mqttv5/subscribe.rs MqttSubscribe derive=Clone
//@ item src/mqtt_serde/mqttv5/suback.rs MqttSubAck derive=Clone
//@ item src/mqtt_serde/mqttv5/unsubscribe.rs MqttUnsubscribe derive=Clone
//@ item src/mqtt_serde/mqttv5/unsuback.rs MqttUnsubAck derive=Clone
//@ item src/mqtt_serde/mqttv5/pingreq.rs MqttPingReq derive=Clone
//@ item src/mqtt_serde/mqttv5/pingresp.rs MqttPingResp derive=Clone
//@ item src/mqtt_serde/mqttv5/disconnect.rs MqttDisconnect derive=Clone
//@ item src/mqtt_serde/mqttv5/auth.rs MqttAuth derive=Clone
//@ item src/mqtt_serde/mqttv3/connect.rs Will derive=Clone
//@ item src/mqtt_serde/mqttv3/connect.rs MqttConnect derive=Clone
//@ item src/mqtt_serde/mqttv3/connack.rs MqttConnAck derive=Clone
//@ item src/mqtt_serde/mqttv3/publish.rs MqttPublish derive=Clone
//@ item src/mqtt_serde/mqttv3/puback.rs MqttPubAck derive=Clone
//@ item src/mqtt_serde/mqttv3/pubrec.rs MqttPubRec derive=Clone
//@ item src/mqtt_serde/mqttv3/pubrel.rs MqttPubRel derive=Clone
//@ item src/mqtt_serde/mqttv3/pubcomp.rs MqttPubComp derive=Clone
//@ item src/mqtt_serde/mqttv3/subscribe.rs SubscriptionTopic derive=Clone
//@ item src/mqtt_serde/mqttv3/subscribe.rs MqttSubscribe derive=Clone
//@ item src/mqtt_serde/mqttv3/suback.rs MqttSubAck derive=Clone
//@ item src/mqtt_serde/mqttv3/unsubscribe.rs MqttUnsubscribe derive=Clone
//@ item src/mqtt_serde/mqttv3/unsuback.rs MqttUnsubAck derive=Clone
//@ item src/mqtt_serde/mqttv3/pingreq.rs MqttPingReq derive=Clone
//@ item src/mqtt_serde/mqttv3/pingresp.rs MqttPingResp derive=Clone
//@ item src/mqtt_serde/mqttv3/disconnect.rs MqttDisconnect derive=Clone
//@ item src/mqtt_serde/control_packet.rs MqttPacket derive=Clone
