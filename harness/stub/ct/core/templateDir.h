/**********************************************************************************************************************
This file is part of the Control Toolbox (https://github.com/ethz-adrl/control-toolbox), copyright by ETH Zurich.
Licensed under the BSD-2 license (see LICENSE file in main directory)
**********************************************************************************************************************/

#pragma once

namespace ct {
namespace core {

static const std::string CODEGEN_TEMPLATE_DIR = "/repo/ct_core/templates";
static const std::string CODEGEN_OUTPUT_DIR = "/repo/ct_core/generated";

}
}

