#pragma once
#define MQT_CORE_QASM_EXPORT
#define MQT_CORE_QASM_NO_EXPORT
#define MQT_CORE_QASM_DEPRECATED
#define MQT_CORE_QASM_DEPRECATED_EXPORT
