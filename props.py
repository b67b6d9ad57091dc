PROPS = {
    "C15": {"harness": ["spin_lock.cpp"]},
    "C02": {"harness": ["co_mt.cpp"]},
    "C01": {"harness": ["coroutine.cpp"]},
    "C03": {"harness": ["co_exception.cpp"]},
    "C04": {"harness": ["layout.cpp"]},
    "C05": {"harness": ["pool_seq.cpp"]},
    "C06": {"harness": ["pool_mt.cpp"]},
    "C07": {"harness": ["task.cpp"]},
    "C08": {"harness": ["task_chain.cpp"]},
    "C09": {"harness": ["task_mt.cpp"]},
    "C10": {"harness": ["tm_seq.cpp"]},
    "C11": {"harness": ["tm_time.cpp", "tm20_time.cpp"]},
    "C12": {"harness": ["tm20.cpp"]},
    "C13": {"harness": ["tm_mt.cpp", "tm20_mt.cpp"]},
    "C14": {"harness": ["ids.cpp"]},
    "C16": {"harness": ["futures.cpp"]},
    "C17": {"harness": ["callable.cpp", "callable_void.cpp", "callable_values.cpp"]},
    "C18": {"harness": ["generator.cpp", "generator_void.cpp", "generator_values.cpp"]},
    "C19": {"harness": ["task20.cpp", "task20_void.cpp", "task20_values.cpp"]},
    "C20": {"harness": ["some.cpp"]},
    "C23": {"harness": ["then20.cpp"]},
    "C24": {"harness": ["bodies.cpp"]},
    "C22": {"harness": ["task_co20.cpp"]},
    "C21": {"harness": ["intrusive.cpp"]},
}
