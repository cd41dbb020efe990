#pragma once
#define MQT_CORE_IR_EXPORT
#define MQT_CORE_IR_NO_EXPORT
