// ---------------------------------------------------------------- C25: commands, builders, options
//@ item src/mqtt_client/commands.rs PublishCommandBuilder
//@ item src/mqtt_client/commands.rs SubscribeCommandBuilder
//@ item src/mqtt_client/commands.rs PublishBuilderError derive=Debug
//@ item src/mqtt_client/commands.rs SubscribeBuilderError
//@ fn src/mqtt_serde/mqttv5/subscribe.rs TopicSubscription::new
//@ for C25
//@ ret r
//@ spec
  ensures r == (TopicSubscription { topic_filter, qos, no_local, retain_as_published, retain_handling })
//@ end
//@ fn src/mqtt_serde/mqttv5/subscribe.rs TopicSubscription::new_simple
//@ for C25
//@ ret r
//@ spec
  ensures r == (TopicSubscription { topic_filter, qos, no_local: false, retain_as_published: false, retain_handling: 0 })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommand::new
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommand { topic_name, payload, qos, retain, dup, packet_id, properties, priority })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommand::simple
//@ for C25
//@ ret r
//@ spec
  ensures exists|s: String| #[trigger] call_ensures(VxT0::into, (topic,), s) && r == (PublishCommand { topic_name: s, payload, qos, retain, dup: false, packet_id: None, properties: r.properties, priority: 128 }), r.properties@.len() == 0
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommand::with_priority
//@ for C25
//@ ret r
//@ spec
  ensures exists|s: String| #[trigger] call_ensures(VxT0::into, (topic,), s) && r == (PublishCommand { topic_name: s, payload, qos, retain, dup: false, packet_id: None, properties: r.properties, priority }), r.properties@.len() == 0
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommand::builder
//@ for C25
//@ ret r
//@ spec
  ensures blank_publish(r)
//@ end
spec fn blank_publish(r: PublishCommandBuilder) -> bool { r == (PublishCommandBuilder { topic_name: None, payload: r.payload, qos: 0, retain: false, dup: false, packet_id: None, properties: r.properties, priority: 128 }) && r.payload@.len() == 0 && r.properties@.len() == 0 }
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::new
//@ for C25
//@ ret r
//@ spec
  ensures blank_publish(r)
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::topic
//@ for C25
//@ ret r
//@ spec
  ensures exists|s: String| #[trigger] call_ensures(VxT0::into, (topic,), s) && r == (PublishCommandBuilder { topic_name: Some(s), ..self })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::payload
//@ for C25
//@ ret r
//@ spec
  ensures exists|s: Vec<u8>| #[trigger] call_ensures(VxT0::into, (payload,), s) && r == (PublishCommandBuilder { payload: s, ..self })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::qos
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { qos, ..self })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::retain
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { retain, ..self })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::dup
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { dup, ..self })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::priority
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { priority, ..self })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::with_packet_id
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { packet_id: Some(id), ..self })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::add_property
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { properties: r.properties, ..self }), r.properties@ =~= self.properties@.push(property)
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::with_message_expiry_interval
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { properties: r.properties, ..self }), r.properties@ =~= self.properties@.push(Property::MessageExpiryInterval(seconds))
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::with_content_type
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { properties: r.properties, ..self }), exists|s: String| #[trigger] call_ensures(VxT0::into, (content_type,), s) && r.properties@ =~= self.properties@.push(Property::ContentType(s))
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::with_response_topic
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { properties: r.properties, ..self }), exists|s: String| #[trigger] call_ensures(VxT0::into, (topic,), s) && r.properties@ =~= self.properties@.push(Property::ResponseTopic(s))
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::with_correlation_data
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { properties: r.properties, ..self }), exists|s: Vec<u8>| #[trigger] call_ensures(VxT0::into, (data,), s) && r.properties@ =~= self.properties@.push(Property::CorrelationData(s))
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::with_topic_alias
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { properties: r.properties, ..self }), r.properties@ =~= self.properties@.push(Property::TopicAlias(alias))
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::with_user_property
//@ for C25
//@ ret r
//@ spec
  ensures r == (PublishCommandBuilder { properties: r.properties, ..self }), exists|s: String, t: String| #[trigger] call_ensures(VxT0::into, (key,), s) && #[trigger] call_ensures(VxT1::into, (value,), t) && r.properties@ =~= self.properties@.push(Property::UserProperty(s, t))
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommandBuilder::build
//@ for C25
//@ ret r
//@ spec
  ensures match r { Err(_) => self.topic_name is None, Ok(c) => self.topic_name is Some && c == (PublishCommand { topic_name: self.topic_name->0, payload: self.payload, qos: self.qos, retain: self.retain, dup: self.dup, packet_id: self.packet_id, properties: self.properties, priority: self.priority }) }
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommand::new
//@ for C25
//@ ret r
//@ spec
  ensures r == (SubscribeCommand { packet_id, subscriptions, properties })
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommand::single
//@ for C25
//@ ret r
//@ spec
  ensures r.packet_id is None, r.properties@.len() == 0, exists|s: String| #[trigger] call_ensures(VxT0::into, (topic,), s) && r.subscriptions@ =~= seq![TopicSubscription { topic_filter: s, qos, no_local: false, retain_as_published: false, retain_handling: 0 }]
//@ end
spec fn blank_subscribe(r: SubscribeCommandBuilder) -> bool { r.packet_id is None && r.topics@.len() == 0 && r.properties@.len() == 0 }
//@ fn src/mqtt_client/commands.rs SubscribeCommand::builder
//@ for C25
//@ ret r
//@ spec
  ensures blank_subscribe(r)
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::new
//@ for C25
//@ ret r
//@ spec
  ensures blank_subscribe(r)
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::add_topic
//@ for C25
//@ ret r
//@ spec
  ensures r == (SubscribeCommandBuilder { topics: r.topics, ..self }), exists|s: String| #[trigger] call_ensures(VxT0::into, (topic,), s) && r.topics@ =~= self.topics@.push(TopicSubscription { topic_filter: s, qos, no_local: false, retain_as_published: false, retain_handling: 0 })
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::add_topic_with_options
//@ for C25
//@ ret r
//@ spec
  ensures r == (SubscribeCommandBuilder { topics: r.topics, ..self }), exists|s: String| #[trigger] call_ensures(VxT0::into, (topic,), s) && r.topics@ =~= self.topics@.push(TopicSubscription { topic_filter: s, qos, no_local, retain_as_published, retain_handling })
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::with_no_local
//@ for C25
//@ ret r
//@ spec
  requires self.topics@.len() > 0
  ensures r == (SubscribeCommandBuilder { topics: r.topics, ..self }), r.topics@ =~= self.topics@.drop_last().push(TopicSubscription { no_local: no_local, ..self.topics@.last() })
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::with_retain_as_published
//@ for C25
//@ ret r
//@ spec
  requires self.topics@.len() > 0
  ensures r == (SubscribeCommandBuilder { topics: r.topics, ..self }), r.topics@ =~= self.topics@.drop_last().push(TopicSubscription { retain_as_published: rap, ..self.topics@.last() })
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::with_retain_handling
//@ for C25
//@ ret r
//@ spec
  requires self.topics@.len() > 0, rh <= 2
  ensures r == (SubscribeCommandBuilder { topics: r.topics, ..self }), r.topics@ =~= self.topics@.drop_last().push(TopicSubscription { retain_handling: rh, ..self.topics@.last() })
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::with_subscription_id
//@ for C25
//@ ret r
//@ spec
  ensures r == (SubscribeCommandBuilder { properties: r.properties, ..self }), r.properties@ =~= self.properties@.push(Property::SubscriptionIdentifier(id))
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::add_property
//@ for C25
//@ ret r
//@ spec
  ensures r == (SubscribeCommandBuilder { properties: r.properties, ..self }), r.properties@ =~= self.properties@.push(property)
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::with_packet_id
//@ for C25
//@ ret r
//@ spec
  ensures r == (SubscribeCommandBuilder { packet_id: Some(id), ..self })
//@ end
//@ fn src/mqtt_client/commands.rs SubscribeCommandBuilder::build
//@ for C25
//@ ret r
//@ spec
  ensures match r { Err(_) => self.topics@.len() == 0, Ok(c) => self.topics@.len() > 0 && c == (SubscribeCommand { packet_id: self.packet_id, subscriptions: self.topics, properties: self.properties }) }
//@ end
//@ fn src/mqtt_client/commands.rs UnsubscribeCommand::new
//@ for C25
//@ ret r
//@ spec
  ensures r == (UnsubscribeCommand { packet_id, topics, properties })
//@ end
//@ fn src/mqtt_client/commands.rs UnsubscribeCommand::from_topics
//@ for C25
//@ ret r
//@ spec
  ensures r.packet_id is None, r.topics == topics, r.properties@.len() == 0
//@ end
// options: every setter changes the field it names and nothing else
//@ fn src/mqtt_client/opts.rs MqttClientOptions::peer
//@ for C25
//@ ret r
//@ spec
  ensures exists|s: String| #[trigger] call_ensures(VxT0::into, (peer,), s) && r == (MqttClientOptions { peer: s, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::client_id
//@ for C25
//@ ret r
//@ spec
  ensures exists|s: String| #[trigger] call_ensures(VxT0::into, (client_id,), s) && r == (MqttClientOptions { client_id: s, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::clean_start
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { clean_start: clean_start, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::keep_alive
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { keep_alive: keep_alive, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::auto_keepalive
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { auto_keepalive: enabled, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::username
//@ for C25
//@ ret r
//@ spec
  ensures exists|s: String| #[trigger] call_ensures(VxT0::into, (username,), s) && r == (MqttClientOptions { username: Some(s), ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::password
//@ for C25
//@ ret r
//@ spec
  ensures exists|s: Vec<u8>| #[trigger] call_ensures(VxT0::into, (password,), s) && r == (MqttClientOptions { password: Some(s), ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::will
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { will: Some(will), ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::reconnect
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { reconnect: reconnect, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::sessionless
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { sessionless: sessionless, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::subscription_topics
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { subscription_topics: topics, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::add_subscription_topic
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { subscription_topics: r.subscription_topics, ..self }), r.subscription_topics@ =~= self.subscription_topics@.push(topic)
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::auto_ack
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { auto_ack: auto_ack, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::mqtt_version
//@ for C25
//@ ret r
//@ spec
  requires version == 3 || version == 4 || version == 5
  ensures r == (MqttClientOptions { mqtt_version: version, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::session_expiry_interval
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { session_expiry_interval: Some(interval), ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::maximum_packet_size
//@ for C25
//@ ret r
//@ spec
  requires size > 0
  ensures r == (MqttClientOptions { maximum_packet_size: Some(size), ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::no_maximum_packet_size
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { maximum_packet_size: None, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::request_response_information
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { request_response_information: Some(request), ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::request_problem_information
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { request_problem_information: Some(request), ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::reconnect_base_delay_ms
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { reconnect_base_delay_ms: delay_ms, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::reconnect_max_delay_ms
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { reconnect_max_delay_ms: delay_ms, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::max_reconnect_attempts
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { max_reconnect_attempts: attempts, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::retransmission_timeout_ms
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { retransmission_timeout_ms: timeout_ms, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::ping_timeout_multiplier
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { ping_timeout_multiplier: multiplier, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::max_outgoing_packet_count
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { max_outgoing_packet_count: count, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::max_event_count
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { max_event_count: count, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::receive_maximum
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { receive_maximum: max, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::parser_buffer_size
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttClientOptions { parser_buffer_size: size, ..self })
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::build
//@ for C25
//@ ret r
//@ spec
  ensures r == self
//@ end
