exec(open('/verif/tools/quick3.py').read().split('B=[')[0])
B=[
("v35","C02",PA,"    AudioTestBuilder& withMonoInput()\n    {\n        return this->withInputChannels (1);","    AudioTestBuilder& withMonoInput()\n    {\n        m_numInputChannels = 1; if (m_numOutputChannels > 2) m_numOutputChannels = 1;\n        return *this;"),
("v36","C02",PA,"        m_inputSignal = std::move (signal.copy());","        if (m_inputSignal == nullptr)\n            m_inputSignal = std::move (signal.copy());"),
("v37","C02",PA,"        return this->withOutputChannels (2);","        return this->withInputChannels (2);"),
("v38","C02",PA,"        return this->withStereoInput().withStereoOutput();","        return this->withStereoInput();"),
("v39","C02",PA,"        m_durationSeconds = durationSeconds;\n        return","        m_durationSeconds = std::max (durationSeconds, m_durationSeconds == 0.1 ? 0.0 : 0.3);\n        return"),
]
