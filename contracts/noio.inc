// ---------------------------------------------------------------- NoIoMqttClient: every operation is the engine's
//@ item src/mqtt_client/no_io_client.rs NoIoMqttClient
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::new
//@ for C13 C14 C18 C19 C20
//@ ret r
//@ spec
  ensures exists|e: MqttEngine| #[trigger] call_ensures(MqttEngine::new, (options,), e) && r.engine == e
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::handle_incoming
//@ like MqttEngine::handle_incoming engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::take_outgoing
//@ like MqttEngine::take_outgoing engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::handle_tick
//@ like MqttEngine::handle_tick engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::next_tick_at
//@ like MqttEngine::next_tick_at engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::take_events
//@ like MqttEngine::take_events engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::connect
//@ like MqttEngine::connect engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::publish
//@ like MqttEngine::publish engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::subscribe
//@ like MqttEngine::subscribe engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::unsubscribe
//@ like MqttEngine::unsubscribe engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::ping
//@ like MqttEngine::send_ping engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::disconnect
//@ like MqttEngine::disconnect engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::auth
//@ like MqttEngine::auth engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::is_connected
//@ like MqttEngine::is_connected engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::mqtt_version
//@ like MqttEngine::mqtt_version engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::options
//@ like MqttEngine::options engine
//@ end
//@ fn src/mqtt_client/no_io_client.rs NoIoMqttClient::handle_connection_lost
//@ like MqttEngine::handle_connection_lost engine
//@ end
