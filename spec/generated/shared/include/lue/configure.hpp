#pragma once


#define LUE_BUILD_DATA_MODEL
#define LUE_DATA_MODEL_WITH_PYTHON_API

/* #undef LUE_BUILD_FRAMEWORK */
/* #undef LUE_FRAMEWORK_WITH_PARALLEL_IO */
/* #undef LUE_FRAMEWORK_WITH_PYTHON_API */
/* #undef LUE_FRAMEWORK_WITH_IMAGE_LAND */
/* #undef LUE_FRAMEWORK_WITH_DEVELOPMENT_OPERATIONS */
#define LUE_FRAMEWORK_ALGORITHM_DEFAULT_POLICIES_ENABLED 0
#define LUE_FRAMEWORK_ALGORITHM_DEFAULT_VALUE_POLICIES_ENABLED 0

#define LUE_VALIDATE_IDXS 0
#define LUE_ASSERT_CONDITIONS 0
#define LUE_BUILD_QUALITY_ASSURANCE
#define LUE_QUALITY_ASSURANCE_WITH_PYTHON_API
#define LUE_QUALITY_ASSURANCE_WITH_TESTS


namespace lue {

    class BuildOptions
    {

        public:

            static constexpr bool build_framework{
#ifdef LUE_BUILD_FRAMEWORK
                true
#else
                false
#endif
            };

            static constexpr bool framework_with_development_operations{
#ifdef LUE_FRAMEWORK_WITH_DEVELOPMENT_OPERATIONS
                true
#else
                false
#endif
            };

            static constexpr bool framework_with_parallel_io{
#ifdef LUE_FRAMEWORK_WITH_PARALLEL_IO
                true
#else
                false
#endif
            };


            static constexpr bool validate_idxs{LUE_VALIDATE_IDXS};

            static constexpr bool assert_conditions{LUE_ASSERT_CONDITIONS};

            static constexpr bool default_policies_enabled{LUE_FRAMEWORK_ALGORITHM_DEFAULT_POLICIES_ENABLED};

            static constexpr bool default_value_policies_enabled{
                LUE_FRAMEWORK_ALGORITHM_DEFAULT_VALUE_POLICIES_ENABLED};

            static constexpr bool build_qa{
#ifdef LUE_BUILD_QUALITY_ASSURANCE
                true
#else
                false
#endif
            };

            static constexpr bool qa_with_tests{
#ifdef LUE_QUALITY_ASSURANCE_WITH_TESTS
                true
#else
                false
#endif
            };
    };


    // inline constexpr BuildOptions build_options;

}  // namespace lue
