
get_vendor_info  @ L(0)
  as_str                                           str
  as_string                                        str

get_feature_info  @ L(1)
  extended_family_id                               1/0:eax[27:20]
  extended_model_id                                1/0:eax[19:16]
  base_family_id                                   1/0:eax[11:8]
  base_model_id                                    1/0:eax[7:4]
  family_id                                        = family_id
  model_id                                         = model_id
  stepping_id                                      1/0:eax[3:0]
  brand_index                                      1/0:ebx[7:0]
  cflush_cache_line_size                           1/0:ebx[15:8]
  initial_local_apic_id                            1/0:ebx[31:24]
  max_logical_processor_ids                        1/0:ebx[23:16]
  has_sse3                                         1/0:ecx[0]
  has_pclmulqdq                                    1/0:ecx[1]
  has_ds_area                                      1/0:ecx[2]
  has_monitor_mwait                                1/0:ecx[3]
  has_cpl                                          1/0:ecx[4]
  has_vmx                                          1/0:ecx[5]
  has_smx                                          1/0:ecx[6]
  has_eist                                         1/0:ecx[7]
  has_tm2                                          1/0:ecx[8]
  has_ssse3                                        1/0:ecx[9]
  has_cnxtid                                       1/0:ecx[10]
  has_fma                                          1/0:ecx[12]
  has_cmpxchg16b                                   1/0:ecx[13]
  has_pdcm                                         1/0:ecx[15]
  has_pcid                                         1/0:ecx[17]
  has_dca                                          1/0:ecx[18]
  has_sse41                                        1/0:ecx[19]
  has_sse42                                        1/0:ecx[20]
  has_x2apic                                       1/0:ecx[21]
  has_movbe                                        1/0:ecx[22]
  has_popcnt                                       1/0:ecx[23]
  has_tsc_deadline                                 1/0:ecx[24]
  has_aesni                                        1/0:ecx[25]
  has_xsave                                        1/0:ecx[26]
  has_oxsave                                       1/0:ecx[27]
  has_avx                                          1/0:ecx[28]
  has_f16c                                         1/0:ecx[29]
  has_rdrand                                       1/0:ecx[30]
  has_hypervisor                                   1/0:ecx[31]
  has_fpu                                          1/0:edx[0]
  has_vme                                          1/0:edx[1]
  has_de                                           1/0:edx[2]
  has_pse                                          1/0:edx[3]
  has_tsc                                          1/0:edx[4]
  has_msr                                          1/0:edx[5]
  has_pae                                          1/0:edx[6]
  has_mce                                          1/0:edx[7]
  has_cmpxchg8b                                    1/0:edx[8]
  has_apic                                         1/0:edx[9]
  has_sysenter_sysexit                             1/0:edx[11]
  has_mtrr                                         1/0:edx[12]
  has_pge                                          1/0:edx[13]
  has_mca                                          1/0:edx[14]
  has_cmov                                         1/0:edx[15]
  has_pat                                          1/0:edx[16]
  has_pse36                                        1/0:edx[17]
  has_psn                                          1/0:edx[18]
  has_clflush                                      1/0:edx[19]
  has_ds                                           1/0:edx[21]
  has_acpi                                         1/0:edx[22]
  has_mmx                                          1/0:edx[23]
  has_fxsave_fxstor                                1/0:edx[24]
  has_sse                                          1/0:edx[25]
  has_sse2                                         1/0:edx[26]
  has_ss                                           1/0:edx[27]
  has_htt                                          1/0:edx[28]
  has_tm                                           1/0:edx[29]
  has_pbe                                          1/0:edx[31]

get_cache_info  @ L(2)

get_processor_serial  @ L(3)
  serial_lower                                     3/0:ecx[31:0]
  serial_middle                                    3/0:edx[31:0]
  serial_upper                                     1/0:eax[31:0]
  serial                                           = serial64
  serial_all                                       = serial96

get_cache_parameters  @ !amd & L(4) | amd & L(8000001d)

get_monitor_mwait_info  @ L(5)
  smallest_monitor_line                            5/0:eax[15:0]
  largest_monitor_line                             5/0:ebx[15:0]
  extensions_supported                             5/0:ecx[0]
  interrupts_as_break_event                        5/0:ecx[1]
  supported_c0_states                              5/0:edx[3:0]
  supported_c1_states                              5/0:edx[7:4]
  supported_c2_states                              5/0:edx[11:8]
  supported_c3_states                              5/0:edx[15:12]
  supported_c4_states                              5/0:edx[19:16]
  supported_c5_states                              5/0:edx[23:20]
  supported_c6_states                              5/0:edx[27:24]
  supported_c7_states                              5/0:edx[31:28]

get_thermal_power_info  @ L(6)
  dts_irq_threshold                                6/0:ebx[3:0]
  has_dts                                          6/0:eax[0]
  has_turbo_boost                                  6/0:eax[1]
  has_arat                                         6/0:eax[2]
  has_pln                                          6/0:eax[4]
  has_ecmd                                         6/0:eax[5]
  has_ptm                                          6/0:eax[6]
  has_hwp                                          6/0:eax[7]
  has_hwp_notification                             6/0:eax[8]
  has_hwp_activity_window                          6/0:eax[9]
  has_hwp_energy_performance_preference            6/0:eax[10]
  has_hwp_package_level_request                    6/0:eax[11]
  has_hdc                                          6/0:eax[13]
  has_turbo_boost3                                 6/0:eax[14]
  has_hwp_capabilities                             6/0:eax[15]
  has_hwp_peci_override                            6/0:eax[16]
  has_flexible_hwp                                 6/0:eax[17]
  has_hwp_fast_access_mode                         6/0:eax[18]
  has_ignore_idle_processor_hwp_request            6/0:eax[20]
  has_hw_coord_feedback                            6/0:ecx[0]
  has_energy_bias_pref                             6/0:ecx[3]

get_extended_feature_info  @ L(7)
  has_fsgsbase                                     7/0:ebx[0]
  has_tsc_adjust_msr                               7/0:ebx[1]
  has_bmi1                                         7/0:ebx[3]
  has_hle                                          7/0:ebx[4]
  has_avx2                                         7/0:ebx[5]
  has_fdp                                          7/0:ebx[6]
  has_smep                                         7/0:ebx[7]
  has_bmi2                                         7/0:ebx[8]
  has_rep_movsb_stosb                              7/0:ebx[9]
  has_invpcid                                      7/0:ebx[10]
  has_rtm                                          7/0:ebx[11]
  has_rdtm                                         7/0:ebx[12]
  has_fpu_cs_ds_deprecated                         7/0:ebx[13]
  has_mpx                                          7/0:ebx[14]
  has_rdta                                         7/0:ebx[15]
  has_rdseed                                       7/0:ebx[18]
  has_adx                                          7/0:ebx[19]
  has_smap                                         7/0:ebx[20]
  has_clflushopt                                   7/0:ebx[23]
  has_processor_trace                              7/0:ebx[25]
  has_sha                                          7/0:ebx[29]
  has_sgx                                          7/0:ebx[2]
  has_avx512f                                      7/0:ebx[16]
  has_avx512dq                                     7/0:ebx[17]
  has_avx512_ifma                                  7/0:ebx[21]
  has_avx512pf                                     7/0:ebx[26]
  has_avx512er                                     7/0:ebx[27]
  has_avx512cd                                     7/0:ebx[28]
  has_avx512bw                                     7/0:ebx[30]
  has_avx512vl                                     7/0:ebx[31]
  has_clwb                                         7/0:ebx[24]
  has_prefetchwt1                                  7/0:ecx[0]
  has_avx512vbmi                                   7/0:ecx[1]
  has_umip                                         7/0:ecx[2]
  has_pku                                          7/0:ecx[3]
  has_ospke                                        7/0:ecx[4]
  has_waitpkg                                      7/0:ecx[5]
  has_av512vbmi2                                   7/0:ecx[6]
  has_avx512vbmi2                                  7/0:ecx[6]
  has_cet_ss                                       7/0:ecx[7]
  has_gfni                                         7/0:ecx[8]
  has_vaes                                         7/0:ecx[9]
  has_vpclmulqdq                                   7/0:ecx[10]
  has_avx512vnni                                   7/0:ecx[11]
  has_avx512bitalg                                 7/0:ecx[12]
  has_tme_en                                       7/0:ecx[13]
  has_avx512vpopcntdq                              7/0:ecx[14]
  has_la57                                         7/0:ecx[16]
  has_rdpid                                        7/0:ecx[22]
  has_sgx_lc                                       7/0:ecx[30]
  mawau_value                                      7/0:ecx[21:17]
  has_avx512_4vnniw                                7/0:edx[2]
  has_avx512_4fmaps                                7/0:edx[3]
  has_avx512_vp2intersect                          7/0:edx[8]
  has_amx_bf16                                     7/0:edx[22]
  has_avx512_fp16                                  7/0:edx[23]
  has_amx_tile                                     7/0:edx[24]
  has_amx_int8                                     7/0:edx[25]
  has_avx_vnni                                     7/1:eax[4]
  has_avx512_bf16                                  7/1:eax[5]
  has_fzrm                                         7/1:eax[10]
  has_fsrs                                         7/1:eax[11]
  has_fsrcrs                                       7/1:eax[12]
  has_hreset                                       7/1:eax[22]
  has_avx_ifma                                     7/1:eax[23]
  has_lam                                          7/1:eax[26]
  has_msrlist                                      7/1:eax[27]
  has_invd_disable_post_bios_done                  7/1:eax[30]
  has_avx_vnni_int8                                7/1:edx[4]
  has_avx_ne_convert                               7/1:edx[5]
  has_avx_vnni_int16                               7/1:edx[10]
  has_prefetchi                                    7/1:edx[14]
  has_uiret_uif                                    7/1:edx[17]
  has_cet_sss                                      7/1:edx[18]
  has_avx10                                        7/1:edx[19]

get_direct_cache_access_info  @ L(9)
  get_dca_cap_value                                9/0:eax[31:0]

get_performance_monitoring_info  @ L(a)
  version_id                                       a/0:eax[7:0]
  number_of_counters                               a/0:eax[15:8]
  counter_bit_width                                a/0:eax[23:16]
  ebx_length                                       a/0:eax[31:24]
  fixed_function_counters                          a/0:edx[4:0]
  fixed_function_counters_bit_width                a/0:edx[12:5]
  has_any_thread_deprecation                       a/0:edx[15]
  is_core_cyc_ev_unavailable                       a/0:ebx[0]
  is_inst_ret_ev_unavailable                       a/0:ebx[1]
  is_ref_cycle_ev_unavailable                      a/0:ebx[2]
  is_cache_ref_ev_unavailable                      a/0:ebx[3]
  is_ll_cache_miss_ev_unavailable                  a/0:ebx[4]
  is_branch_inst_ret_ev_unavailable                a/0:ebx[5]
  is_branch_midpred_ev_unavailable                 a/0:ebx[6]

get_extended_topology_info  @ L(b)

get_extended_topology_info_v2  @ L(1f)

get_extended_state_info  @ L(d)
  xcr0_supports_legacy_x87                         d/0:eax[0]
  xcr0_supports_sse_128                            d/0:eax[1]
  xcr0_supports_avx_256                            d/0:eax[2]
  xcr0_supports_mpx_bndregs                        d/0:eax[3]
  xcr0_supports_mpx_bndcsr                         d/0:eax[4]
  xcr0_supports_avx512_opmask                      d/0:eax[5]
  xcr0_supports_avx512_zmm_hi256                   d/0:eax[6]
  xcr0_supports_avx512_zmm_hi16                    d/0:eax[7]
  xcr0_supports_pkru                               d/0:eax[9]
  ia32_xss_supports_pt                             d/1:ecx[8]
  ia32_xss_supports_hdc                            d/1:ecx[13]
  xsave_area_size_enabled_features                 d/0:ebx[31:0]
  xsave_area_size_supported_features               d/0:ecx[31:0]
  has_xsaveopt                                     d/1:eax[0]
  has_xsavec                                       d/1:eax[1]
  has_xgetbv                                       d/1:eax[2]
  has_xsaves_xrstors                               d/1:eax[3]
  xsave_size                                       d/1:ebx[31:0]
  iter                                             iter

get_rdt_monitoring_info  @ L(f)
  rmid_range                                       f/0:ebx[31:0]
  has_l3_monitoring                                f/0:edx[1]
  l3_monitoring                                    -> f/0:edx[1]
      conversion_factor                                f/1:ebx[31:0]
      maximum_rmid_range                               f/1:ecx[31:0]
      has_occupancy_monitoring                         f/1:edx[0]
      has_total_bandwidth_monitoring                   f/1:edx[1]
      has_local_bandwidth_monitoring                   f/1:edx[2]

get_rdt_allocation_info  @ L(10)
  has_l3_cat                                       10/0:ebx[1]
  has_l2_cat                                       10/0:ebx[2]
  has_memory_bandwidth_allocation                  10/0:ebx[3]
  l3_cat                                           -> 10/0:ebx[1]
      capacity_mask_length                             10/1:eax[4:0]+1
      isolation_bitmap                                 10/1:ebx[31:0]
      highest_cos                                      10/1:edx[15:0]
      has_code_data_prioritization                     10/1:ecx[2]
  l2_cat                                           -> 10/0:ebx[2]
      capacity_mask_length                             10/2:eax[4:0]+1
      isolation_bitmap                                 10/2:ebx[31:0]
      highest_cos                                      10/2:edx[15:0]
  memory_bandwidth_allocation                      -> 10/0:ebx[3]
      max_hba_throttling                               10/3:eax[11:0]+1
      highest_cos                                      10/3:edx[15:0]
      has_linear_response_delay                        10/3:ecx[2]

get_sgx_info  @ L(7) & 7/0:ebx[2] & L(12)
  has_sgx1                                         12/0:eax[0]
  has_sgx2                                         12/0:eax[1]
  has_enclv_leaves_einvirtchild_edecvirtchild_esetcontext 12/0:eax[5]
  has_encls_leaves_etrackc_erdinfo_eldbc_elduc     12/0:eax[6]
  miscselect                                       12/0:ebx[31:0]
  max_enclave_size_non_64bit                       12/0:edx[7:0]
  max_enclave_size_64bit                           12/0:edx[15:8]
  secs_attributes                                  = secs_attributes
  iter                                             iter

get_processor_trace_info  @ L(14)
  has_rtit_cr3_match                               14/0:ebx[0]
  has_configurable_psb_and_cycle_accurate_mode     14/0:ebx[1]
  has_ip_tracestop_filtering                       14/0:ebx[2]
  has_mtc_timing_packet_coefi_suppression          14/0:ebx[3]
  has_ptwrite                                      14/0:ebx[4]
  has_power_event_trace                            14/0:ebx[5]
  has_topa                                         14/0:ecx[0]
  has_topa_maximum_entries                         14/0:ecx[1]
  has_single_range_output_scheme                   14/0:ecx[2]
  has_trace_transport_subsystem                    14/0:ecx[3]
  has_lip_with_cs_base                             14/0:ecx[31]
  configurable_address_ranges                      = pt eax 2 0
  supported_mtc_period_encodings                   = pt eax 31 16
  supported_cycle_threshold_value_encodings        = pt ebx 15 0
  supported_psb_frequency_encodings                = pt ebx 31 16

get_tsc_info  @ L(15)
  denominator                                      15/0:eax[31:0]
  numerator                                        15/0:ebx[31:0]
  nominal_frequency                                15/0:ecx[31:0]
  tsc_frequency                                    = tsc_frequency

get_processor_frequency_info  @ L(16)
  processor_base_frequency                         16/0:eax[15:0]
  processor_max_frequency                          16/0:ebx[15:0]
  bus_frequency                                    16/0:ecx[15:0]

get_soc_vendor_info  @ L(17)
  get_soc_vendor_id                                17/0:ebx[15:0]
  get_project_id                                   17/0:ecx[31:0]
  get_stepping_id                                  17/0:edx[31:0]
  get_vendor_brand                                 -> soc_brand
      as_str                                           str
      as_string                                        str
  get_vendor_attributes                            iter

get_deterministic_address_translation_info  @ L(18)

get_hypervisor_info  @ L(1) & 1/0:ecx[31] & GE(40000000/0:eax,1)
  identify                                         = hypervisor
  tsc_frequency                                    = hvfreq eax
  apic_frequency                                   = hvfreq ebx

get_extended_processor_and_feature_identifiers  @ L(80000001)
  extended_signature                               80000001/0:eax[31:0]
  pkg_type                                         80000001/0:ebx[31:28]
  brand_id                                         80000001/0:ebx[15:0]
  has_lahf_sahf                                    80000001/0:ecx[0]
  has_cmp_legacy                                   amd& 80000001/0:ecx[1]
  has_svm                                          amd& 80000001/0:ecx[2]
  has_ext_apic_space                               amd& 80000001/0:ecx[3]
  has_alt_mov_cr8                                  amd& 80000001/0:ecx[4]
  has_lzcnt                                        80000001/0:ecx[5]
  has_sse4a                                        amd& 80000001/0:ecx[6]
  has_misaligned_sse_mode                          amd& 80000001/0:ecx[7]
  has_prefetchw                                    80000001/0:ecx[8]
  has_osvw                                         amd& 80000001/0:ecx[9]
  has_ibs                                          amd& 80000001/0:ecx[10]
  has_xop                                          amd& 80000001/0:ecx[11]
  has_skinit                                       amd& 80000001/0:ecx[12]
  has_wdt                                          amd& 80000001/0:ecx[13]
  has_lwp                                          amd& 80000001/0:ecx[15]
  has_fma4                                         amd& 80000001/0:ecx[16]
  has_tbm                                          amd& 80000001/0:ecx[21]
  has_topology_extensions                          amd& 80000001/0:ecx[22]
  has_perf_cntr_extensions                         amd& 80000001/0:ecx[23]
  has_nb_perf_cntr_extensions                      amd& 80000001/0:ecx[24]
  has_data_access_bkpt_extension                   amd& 80000001/0:ecx[26]
  has_perf_tsc                                     amd& 80000001/0:ecx[27]
  has_perf_cntr_llc_extensions                     amd& 80000001/0:ecx[28]
  has_monitorx_mwaitx                              amd& 80000001/0:ecx[29]
  has_addr_mask_extension                          amd& 80000001/0:ecx[30]
  has_syscall_sysret                               80000001/0:edx[11]
  has_execute_disable                              80000001/0:edx[20]
  has_mmx_extensions                               amd& 80000001/0:edx[22]
  has_fast_fxsave_fxstor                           amd& 80000001/0:edx[25]
  has_1gib_pages                                   80000001/0:edx[26]
  has_rdtscp                                       80000001/0:edx[27]
  has_64bit_mode                                   80000001/0:edx[29]
  has_amd_3dnow_extensions                         amd& 80000001/0:edx[30]
  has_3dnow                                        amd& 80000001/0:edx[31]

get_processor_brand_string  @ L(80000002) & L(80000003) & L(80000004)
  as_str                                           str

get_l1_cache_and_tlb_info  @ amd & L(80000005)
  dtlb_2m_4m_associativity                         = assoc1 80000005 eax 31 24
  dtlb_2m_4m_size                                  80000005/0:eax[23:16]
  itlb_2m_4m_associativity                         = assoc1 80000005 eax 15 8
  itlb_2m_4m_size                                  80000005/0:eax[7:0]
  dtlb_4k_associativity                            = assoc1 80000005 ebx 31 24
  dtlb_4k_size                                     80000005/0:ebx[23:16]
  itlb_4k_associativity                            = assoc1 80000005 ebx 15 8
  itlb_4k_size                                     80000005/0:ebx[7:0]
  dcache_size                                      80000005/0:ecx[31:24]
  dcache_associativity                             = assoc1 80000005 ecx 23 16
  dcache_lines_per_tag                             80000005/0:ecx[15:8]
  dcache_line_size                                 80000005/0:ecx[7:0]
  icache_size                                      80000005/0:edx[31:24]
  icache_associativity                             = assoc1 80000005 edx 23 16
  icache_lines_per_tag                             80000005/0:edx[15:8]
  icache_line_size                                 80000005/0:edx[7:0]

get_l2_l3_cache_and_tlb_info  @ L(80000006)
  dtlb_2m_4m_associativity                         = assoc2 80000006 eax 31 28
  dtlb_2m_4m_size                                  80000006/0:eax[27:16]
  itlb_2m_4m_associativity                         = assoc2 80000006 eax 15 12
  itlb_2m_4m_size                                  80000006/0:eax[11:0]
  dtlb_4k_associativity                            = assoc2 80000006 ebx 31 28
  dtlb_4k_size                                     80000006/0:ebx[27:16]
  itlb_4k_associativity                            = assoc2 80000006 ebx 15 12
  itlb_4k_size                                     80000006/0:ebx[11:0]
  l2cache_line_size                                80000006/0:ecx[7:0]
  l2cache_lines_per_tag                            80000006/0:ecx[11:8]
  l2cache_associativity                            = assoc2 80000006 ecx 15 12
  l2cache_size                                     80000006/0:ecx[31:16]
  l3cache_line_size                                80000006/0:edx[7:0]
  l3cache_lines_per_tag                            80000006/0:edx[11:8]
  l3cache_associativity                            = assoc2 80000006 edx 15 12
  l3cache_size                                     80000006/0:edx[31:18]

get_advanced_power_mgmt_info  @ L(80000007)
  has_mca_overflow_recovery                        80000007/0:ebx[0]
  has_succor                                       80000007/0:ebx[1]
  has_hwa                                          80000007/0:ebx[2]
  cpu_pwr_sample_time_ratio                        80000007/0:ecx[31:0]
  has_ts                                           80000007/0:edx[0]
  has_freq_id_ctrl                                 80000007/0:edx[1]
  has_volt_id_ctrl                                 80000007/0:edx[2]
  has_thermtrip                                    80000007/0:edx[3]
  has_tm                                           80000007/0:edx[4]
  has_100mhz_steps                                 80000007/0:edx[6]
  has_hw_pstate                                    80000007/0:edx[7]
  has_invariant_tsc                                80000007/0:edx[8]
  has_cpb                                          80000007/0:edx[9]
  has_ro_effective_freq_iface                      80000007/0:edx[10]
  has_feedback_iface                               80000007/0:edx[11]
  has_power_reporting_iface                        80000007/0:edx[12]

get_processor_capacity_feature_info  @ L(80000008)
  physical_address_bits                            80000008/0:eax[7:0]
  linear_address_bits                              80000008/0:eax[15:8]
  guest_physical_address_bits                      80000008/0:eax[23:16]
  has_cl_zero                                      80000008/0:ebx[0]
  has_inst_ret_cntr_msr                            80000008/0:ebx[1]
  has_restore_fp_error_ptrs                        80000008/0:ebx[2]
  has_invlpgb                                      80000008/0:ebx[3]
  has_rdpru                                        80000008/0:ebx[4]
  has_mcommit                                      80000008/0:ebx[8]
  has_wbnoinvd                                     80000008/0:ebx[9]
  has_int_wbinvd                                   80000008/0:ebx[13]
  has_unsupported_efer_lmsle                       80000008/0:ebx[20]
  has_invlpgb_nested                               80000008/0:ebx[21]
  perf_tsc_size                                    = perf_tsc_size
  apic_id_size                                     80000008/0:ecx[15:12]
  maximum_logical_processors                       = max_logical
  num_phys_threads                                 80000008/0:ecx[7:0]+1
  invlpgb_max_pages                                80000008/0:edx[15:0]
  max_rdpru_id                                     80000008/0:edx[31:16]

get_svm_info  @ amd & L(80000001) & 80000001/0:ecx[2] & L(8000000a)
  revision                                         8000000a/0:eax[7:0]
  supported_asids                                  8000000a/0:ebx[31:0]
  has_nested_paging                                8000000a/0:edx[0]
  has_lbr_virtualization                           8000000a/0:edx[1]
  has_svm_lock                                     8000000a/0:edx[2]
  has_nrip                                         8000000a/0:edx[3]
  has_tsc_rate_msr                                 8000000a/0:edx[4]
  has_vmcb_clean_bits                              8000000a/0:edx[5]
  has_flush_by_asid                                8000000a/0:edx[6]
  has_decode_assists                               8000000a/0:edx[7]
  has_pause_filter                                 8000000a/0:edx[10]
  has_pause_filter_threshold                       8000000a/0:edx[12]
  has_avic                                         8000000a/0:edx[13]
  has_vmsave_virtualization                        8000000a/0:edx[15]
  has_gif                                          8000000a/0:edx[16]
  has_gmet                                         8000000a/0:edx[17]
  has_sss_check                                    8000000a/0:edx[19]
  has_spec_ctrl                                    8000000a/0:edx[20]
  has_host_mce_override                            8000000a/0:edx[23]
  has_tlb_ctrl                                     8000000a/0:edx[24]

get_tlb_1gb_page_info  @ L(80000019)
  dtlb_l1_1gb_associativity                        = assoc2 80000019 eax 31 28
  dtlb_l1_1gb_size   80000019/0:eax[27:16]
  itlb_l1_1gb_associativity                        = assoc2 80000019 eax 15 12
  itlb_l1_1gb_size   80000019/0:eax[11:0]
  dtlb_l2_1gb_associativity                        = assoc2 80000019 ebx 31 28
  dtlb_l2_1gb_size   80000019/0:ebx[27:16]
  itlb_l2_1gb_associativity                        = assoc2 80000019 ebx 15 12
  itlb_l2_1gb_size   80000019/0:ebx[11:0]

get_performance_optimization_info  @ L(8000001a)
  has_fp128                                        8000001a/0:eax[0]
  has_movu                                         8000001a/0:eax[1]
  has_fp256                                        8000001a/0:eax[2]

get_instruction_based_sampling_capabilities  @ L(8000001b)
  has_feature_flags                                8000001b/0:eax[0]
  has_fetch_sampling                               8000001b/0:eax[1]
  has_execution_sampling                           8000001b/0:eax[2]
  has_read_write_operation_counter                 8000001b/0:eax[3]
  has_operation_counter                            8000001b/0:eax[4]
  has_branch_target_address_reporting              8000001b/0:eax[5]
  has_operation_counter_extended                   8000001b/0:eax[6]
  has_invalid_rip_indication                       8000001b/0:eax[7]
  has_fused_branch_micro_op_indication             8000001b/0:eax[8]
  has_l3_miss_filtering                            8000001b/0:eax[11]

get_processor_topology_info  @ L(8000001e)
  x2apic_id                                        8000001e/0:eax[31:0]
  core_id                                          8000001e/0:ebx[7:0]
  threads_per_core                                 8000001e/0:ebx[15:8]+1
  node_id                                          8000001e/0:ecx[7:0]
  nodes_per_processor                              8000001e/0:ecx[10:8]+1

get_memory_encryption_info  @ L(8000001f)
  has_sme                                          8000001f/0:eax[0]
  has_sev                                          8000001f/0:eax[1]
  has_page_flush_msr                               8000001f/0:eax[2]
  has_sev_es                                       8000001f/0:eax[3]
  has_sev_snp                                      8000001f/0:eax[4]
  has_vmpl                                         8000001f/0:eax[5]
  has_hw_enforced_cache_coh                        8000001f/0:eax[10]
  has_64bit_mode                                   8000001f/0:eax[11]
  has_restricted_injection                         8000001f/0:eax[12]
  has_alternate_injection                          8000001f/0:eax[13]
  has_debug_swap                                   8000001f/0:eax[14]
  has_prevent_host_ibs                             8000001f/0:eax[15]
  has_vte                                          8000001f/0:eax[16]
  c_bit_position                                   8000001f/0:ebx[5:0]
  physical_address_reduction                       8000001f/0:ebx[11:6]
  max_encrypted_guests                             8000001f/0:ecx[31:0]
  min_sev_no_es_asid                               8000001f/0:edx[31:0]

get_pqos_extended_feature_info  @ L(80000020)
  has_l3mbe                                        80000020/0:ebx[1]
  has_l3smbe                                       80000020/0:ebx[2]
  has_bmec                                         80000020/0:ebx[3]
  has_l3rr                                         80000020/0:ebx[4]
  has_abmc                                         80000020/0:ebx[5]
  has_sdciae                                       80000020/0:ebx[6]
  get_l3_memory_bandwidth_enforcement_info         -> 80000020/0:ebx[1]
      bandwidth_length                                 80000020/1:eax[31:0]
      cos_max                                          80000020/1:edx[31:0]
  get_l3_slow_memory_bandwidth_enforcement_info    -> 80000020/0:ebx[2]
      bandwidth_length                                 80000020/2:eax[31:0]
      cos_max                                          80000020/2:edx[31:0]
  get_bandwidth_monitoring_event_counters_info     -> 80000020/0:ebx[3]
      number_events                                    80000020/3:ebx[7:0]
      has_l3_cache_lcl_bw_fill_mon                     80000020/3:ecx[0]
      has_l3_cache_rmt_bw_fill_mon                     80000020/3:ecx[1]
      has_l3_cache_lcl_bw_nt_wr_mon                    80000020/3:ecx[2]
      has_l3_cache_rmt_bw_nt_wr_mon                    80000020/3:ecx[3]
      has_l3_cache_lcl_slow_bw_fill_mon                80000020/3:ecx[4]
      has_l3_cache_rmt_slow_bw_fill_mon                80000020/3:ecx[5]
      has_l3_cache_vic_mon                             80000020/3:ecx[6]
  get_assignable_bandwidth_monitoring_counters_info -> 80000020/0:ebx[5]
      counter_size                                     80000020/5:eax[7:0]
      has_overflow_bit                                 80000020/5:eax[8]
      max_abmc                                         80000020/5:ebx[15:0]
      has_select_cos                                   80000020/5:ecx[0]

get_extended_feature_identification_2  @ L(80000021)
  has_no_nested_data_bp                            80000021/0:eax[0]
  has_lfence_always_serializing                    80000021/0:eax[2]
  has_smm_pg_cfg_lock                              80000021/0:eax[3]
  has_null_select_clears_base                      80000021/0:eax[6]
  has_upper_address_ignore                         80000021/0:eax[7]
  has_automatic_ibrs                               80000021/0:eax[8]
  has_no_smm_ctl_msr                               80000021/0:eax[9]
  has_prefetch_ctl_msr                             80000021/0:eax[13]
  has_cpuid_user_dis                               80000021/0:eax[17]
  microcode_patch_size                             80000021/0:ebx[11:0]

get_extended_performance_monitoring_and_debug  @ L(80000022)
  has_perf_mon_v2                                  80000022/0:eax[0]
  has_lbr_stack                                    80000022/0:eax[1]
  has_lbr_and_pmc_freeze                           80000022/0:eax[2]
  num_perf_ctr_core                                80000022/0:ebx[3:0]
  num_lbr_stack_size                               80000022/0:ebx[9:4]
  num_perf_ctr_nb                                  80000022/0:ebx[15:10]

get_multi_key_encrypted_memory_capabilities  @ L(80000023)
  has_mem_hmk                                      80000023/0:eax[0]
  max_mem_hmk_encr_key_id                          80000023/0:ebx[15:0]

get_extended_cpu_topology  @ L(80000026)

item cache_parameter
  cache_type                                       enum .:eax[4:0] 0=Null 1=Data 2=Instruction 3=Unified *=Reserved
  level                                            .:eax[7:5]
  is_self_initializing                             .:eax[8]
  is_fully_associative                             .:eax[9]
  max_cores_for_cache                              .:eax[25:14]+1
  max_cores_for_package                            .:eax[31:26]+1
  coherency_line_size                              .:ebx[11:0]+1
  physical_line_partitions                         .:ebx[21:12]+1
  associativity                                    .:ebx[31:22]+1
  sets                                             .:ecx[31:0]+1
  is_write_back_invalidate                         .:edx[0]
  is_inclusive                                     .:edx[1]
  has_complex_indexing                             .:edx[2]

item topology_level
  processors                                       .:ebx[15:0]
  level_number                                     .:ecx[7:0]
  level_type                                       enum .:ecx[15:8] 0=Invalid 1=SMT 2=Core 3=Module 4=Tile 5=Die *=?
  x2apic_id                                        .:edx[31:0]
  shift_right_for_next_apic_id                     .:eax[4:0]

item extended_state
  register                                         enum .sub[31:0] 2=Avx 3=MpxBndregs 4=MpxBndcsr 5=Avx512Opmask 6=Avx512ZmmHi256 7=Avx512ZmmHi16 8=Pt 9=Pkru 13=Hdc *=Unknown(.sub)
  size                                             .:eax[31:0]
  offset                                           .:ebx[31:0]
  location                                         enum .:ecx[0] 0=Xcr0 1=Ia32Xss
  is_in_ia32_xss                                   .:ecx[0]
  is_in_xcr0                                       !.:ecx[0]
  is_compacted_format                              .:ecx[1]

item sgx_epc
  physical_base                                    cat 12x0 .:eax[31:12] .:ebx[19:0] 12x0
  size                                             cat 12x0 .:ecx[31:12] .:edx[19:0] 12x0

item dat
  has_4k_entries                                   .:ebx[0]
  has_2mb_entries                                  .:ebx[1]
  has_4mb_entries                                  .:ebx[2]
  has_1gb_entries                                  .:ebx[3]
  is_fully_associative                             .:edx[8]
  partitioning                                     .:ebx[10:8]
  ways                                             .:ebx[31:16]
  sets                                             .:ecx[31:0]
  cache_type                                       enum .:edx[4:0] 0=Null 1=DataTLB 2=InstructionTLB 3=UnifiedTLB 4=LoadOnly 5=StoreOnly *=Unknown
  cache_level                                      .:edx[7:5]
  max_addressable_ids                              .:edx[25:14]+1

item cpu_topology_level
  mask_width                                       .:eax[4:0]
  has_efficiency_ranking_available                 .:eax[29]
  has_heterogeneous_cores                          .:eax[30]
  has_asymmetric_topology                          .:eax[31]
  num_logical_processors                           .:ebx[15:0]
  pwr_efficiency_ranking                           .:ebx[23:16]
  native_mode_id                                   .:ebx[27:24]
  core_type                                        .:ebx[31:28]
  input_ecx                                        .:ecx[7:0]
  level_type                                       enum .:ecx[15:8] 0=Reserved 1=Core 2=Complex 3=Die 4=Socket *=Unknown(.:ecx[15:8])
  extended_apic_id                                 .:edx[31:0]
