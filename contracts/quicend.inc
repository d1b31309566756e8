//@ for C33
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  ensures
     *old(control_stream) == Some(stream_id) ==> *final(control_stream) is None && final(control_outgoing)@.len() == 0 && !*final(control_finishing) && *final(control_finished) && final(mqtt_engine).same(old(mqtt_engine)) && !final(mqtt_engine).linked() && final(data_streams)@ == old(data_streams)@
        && *final(default_pub_stream) == *old(default_pub_stream) && *final(default_sub_stream) == *old(default_sub_stream)
        && final(mqtt_events)@ =~= old(mqtt_events)@.push(MqttEvent::$A { stream_id: stream_id.id, error_code: error_code.v }).push(MqttEvent::Disconnected(None)),
     *old(control_stream) != Some(stream_id) ==> *final(control_stream) == *old(control_stream) && final(control_outgoing)@ == old(control_outgoing)@ && *final(control_finishing) == *old(control_finishing) && *final(control_finished) == *old(control_finished) && *final(mqtt_engine) == *old(mqtt_engine)
        && final(data_streams)@ =~= old(data_streams)@.remove(stream_id),
     *old(control_stream) != Some(stream_id) && old(data_streams)@.contains_key(stream_id) ==> *final(default_pub_stream) == ends(*old(default_pub_stream), stream_id) && *final(default_sub_stream) == ends(*old(default_sub_stream), stream_id)
        && final(mqtt_events)@ == old(mqtt_events)@.push(MqttEvent::$A { stream_id: stream_id.id, error_code: error_code.v }),
     *old(control_stream) != Some(stream_id) && !old(data_streams)@.contains_key(stream_id) ==> *final(default_pub_stream) == *old(default_pub_stream) && *final(default_sub_stream) == *old(default_sub_stream) && final(mqtt_events)@ == old(mqtt_events)@,
